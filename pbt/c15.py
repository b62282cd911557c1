"""config lint, and what process and graph refuse, against a reference lint."""
import json, re
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg, gen
from .fw import Violation, short

ID = "C15"
EXAMPLES = {"quick": 24000, "thorough": 400000}
RULE = ("a case is a configuration with a few components, some with and some without settings, watched buffers in and out of the "
        "connections, connections that convert and some that do not, as JSON or YAML; lint, graph and (when a refusal is due) process "
        "are run; non-trivial: at least one connection, and an inconsistency or a setting for every component")
ASSUMPTIONS = ["names and keys without line breaks and without ' - ', so that the lines of a report can be told apart"]

name = st.one_of(st.sampled_from(["a", "b", "c", "x", "junction_1", "dyn_drain_0", "buffer", "buffer_1", "my_buffer", "launch", "faucet"]), gen.ident)
# As a list of objects, or in settings only, a name may be anything
anyname = st.one_of(name, cg.wild_text.filter(lambda s: not re.search(r"[\n\r]| - |PA: Error", s)), st.sampled_from(["a b", "", "\u00e9", "0002: Faucet:a", "a:b"]))


@st.composite
def cases(draw):
    pool = draw(st.lists(name, min_size=1, max_size=4))
    opool = pool + draw(st.lists(anyname, max_size=2))
    nm = st.sampled_from(pool)
    onm = st.sampled_from(opool)
    conns = {}
    keys = draw(st.lists(st.one_of(st.sampled_from(["k", "k_1", "main", "k b", ""]), gen.ident), min_size=draw(st.sampled_from([0, 1, 1, 1, 2])), max_size=4, unique=True))
    used = []
    bad = draw(st.integers(0, 3)) == 0
    for k in keys:
        kind = draw(st.integers(0, 4))
        if kind <= 1 or (kind == 4 and not bad):
            items = draw(gen.join_items(names=nm, max_size=5))
            conns[k] = draw(gen.render_join(items))
        elif kind == 2:
            conns[k] = [dict(o) for o in gen.as_objects(draw(gen.join_items(names=onm, max_size=5)))]
        elif kind == 3:
            conns[k] = draw(st.sampled_from(["", []]))
        elif draw(st.booleans()):
            conns[k] = draw(gen.damaged_join()).replace("\n", "~").replace("\r", "~")
        else:
            o = gen.as_objects(draw(gen.join_items(names=onm, max_size=4)))
            w = draw(st.integers(0, 2))
            if w == 0:
                o = o[:1]
            elif w == 1:
                o = o + o
            else:
                o = o[::-1]
            conns[k] = o
    cfg = {"connection": conns}
    comps = []
    for v in conns.values():
        c = components(v)
        comps += c or []
    full = draw(st.integers(0, 3)) == 0
    for sect, mk in (("faucet", lambda: {"source": draw(st.sampled_from(["", "/dev/null"]))}),
                     ("drain", lambda: draw(st.sampled_from([{"destination": ""}, {"destination": "/dev/null"}, {}]))),
                     ("launch", lambda: {"cmd": draw(st.sampled_from(["true", None, ""]))}),
                     ("regulator", lambda: draw(st.sampled_from([{}, {"buffered": [1, 2]}, {"buffered": None}])))):
        d = {}
        for t, n in comps:
            if t == sect and (full or draw(st.integers(0, 3))):
                d[n] = mk()
        if not full or draw(st.integers(0, 2)) == 0:
            for n in draw(st.lists(onm, max_size=1)):
                d[n] = mk()
        if sect == "regulator":
            for r in d.values():
                bufs = [n for t, n in comps if t == "buffer"]
                if draw(st.booleans()):
                    r["monitored_buffers"] = draw(st.lists(st.sampled_from(bufs) if bufs and (full or draw(st.booleans())) else st.one_of(onm, st.sampled_from([n for _, n in comps] or ["x"])), max_size=draw(st.sampled_from([3, 3, 3, 12])))) if (bufs or not full) else []
        if d or draw(st.booleans()):
            cfg[sect] = d
    return {"cfg": cfg, "fmt": draw(st.sampled_from(["json", "yaml"])), "file": draw(st.booleans()), "graph": draw(st.integers(0, 2)) == 0,
            "process": draw(st.integers(0, 2)) == 0}


def strategy(tier):
    return cases()


def components(v):
    """The (type, name)s of a connection, None if it cannot be converted."""
    if isinstance(v, str):
        items = gen.parse_join(v)
        return None if items is None else [(i["type"], i["name"]) for i in items]
    if len(v) == 1:
        return None
    for i, c in enumerate(v):
        if i + 1 < len(v) and "output_port" not in c or i > 0 and "priority" not in c:
            return None
    return [(c["component_type"], c["component_name"]) for c in v]


def reference(cfg):
    bad = Counter()
    comps = set()
    for k, v in cfg["connection"].items():
        c = components(v)
        if c is None:
            bad["0003: %s:%s" % (k, v if isinstance(v, str) else "[")] += 1
        else:
            comps.update(c)
    if bad:
        return bad
    r = Counter()
    for s in ("faucet", "drain", "launch", "regulator"):
        for n in cfg.get(s, {}):
            if (s, n) not in comps:
                r["0001: %s:%s - Configuration exists in %s," % (s.capitalize(), n, s)] += 1
        for t, n in comps:
            if t == s and n not in cfg.get(s, {}):
                r["0002: %s:%s - " % (s.capitalize(), n)] += 1
    for n, c in cfg.get("regulator", {}).items():
        for b in set(c.get("monitored_buffers", [])):
            if ("buffer", b) not in comps:
                r["0004: Buffer:%s - Configuration exists in regulator[\"%s\"].monitored_buffers," % (b, n)] += 1
    return r


def compare(what, err, want):
    lines = re.findall(r"PA: Error: (\d\d\d\d: .*)", err.decode("utf8"))
    left = Counter(want)
    for l in lines:
        m = sorted((w for w in left if l.startswith(w)), key=len)
        if not m:
            raise Violation("%s reported %r, which is %s; all: %s" % (what, l, "reported already or not so", short(err, 800)))
        left[m[-1]] -= 1
        if not left[m[-1]]:
            del left[m[-1]]
    if left:
        raise Violation("%s did not report %s; reported: %s" % (what, sorted(left), short(err, 800)))


def run(case, ctx):
    cfg = case["cfg"]
    want = reference(cfg)
    doc = cg.text_of(cfg, case["fmt"]).encode()

    def args(*cmd):
        a = list(cmd[:1]) + ["--format", case["fmt"]]
        if case["file"]:
            a += ["--config", ctx.write("c", doc)]
        return a + list(cmd[1:]), (b"" if case["file"] else doc)

    a, i = args("config", "lint")
    r = ctx.pa2run(a, stdin=i)
    for w in want:
        ctx.note(w[:4])
    if not want:
        if r.rc != 0:
            raise Violation("lint of a consistent configuration: status %d, %s" % (r.rc, short(r.err)))
        if r.err:
            raise Violation("lint of a consistent configuration wrote %s on stderr" % short(r.err))
        n = cg.normal(cfg)
        for k, v in n["connection"].items():
            if isinstance(v, str):
                n["connection"][k] = gen.as_objects(gen.parse_join(v))
        if not cg.same(json.loads(r.out), n):
            raise Violation("lint printed %s, expected %s" % (short(r.out, 1500), cg.canon_print(n)))
        ctx.note("consistent")
    else:
        if r.rc != 1 or r.out:
            raise Violation("lint: status %d, stdout %s, expected the reports %s" % (r.rc, short(r.out), sorted(want)))
        compare("lint", r.err, want)
    hard = Counter({w: n for w, n in want.items() if not w.startswith("0001")})
    if case["graph"]:
        a, i = args("graph")
        g = ctx.pa2run(a, stdin=i)
        ctx.note("graph refused" if hard else "graph drawn")
        if hard:
            if g.rc != 1 or g.out:
                raise Violation("graph: status %d, stdout %s, expected the reports %s" % (g.rc, short(g.out), sorted(hard)))
            compare("graph", g.err, hard)
        elif g.rc != 0 or g.err or not g.out:
            raise Violation("graph: status %d, stderr %s, although only 0001 is due: %s" % (g.rc, short(g.err), sorted(want)))
    if case["process"] and case["file"]:
        ok = runnable(cfg) and not hard
        if hard or ok:
            a, i = args("process")
            p = ctx.pa2run(a, stdin=b"")
            ctx.note("process refused" if hard else "process ran")
            if hard:
                if p.rc != 1 or p.out:
                    raise Violation("process: status %d, stdout %s, expected the reports %s" % (p.rc, short(p.out), sorted(hard)))
                compare("process", p.err, hard)
            elif p.rc != 0 or p.err or p.out:
                raise Violation("process: status %d, stdout %s, stderr %s" % (p.rc, short(p.out), short(p.err)))
    comps = sum(len(components(v) or []) for v in cfg["connection"].values())
    return bool(comps and (hard or want or len(cfg["connection"]) > 1)) or any(w[:4] == "0003" for w in want)


def runnable(cfg):
    """Certainly nothing in it that process refuses or that never ends: faucets first, drains last, only simple parts between."""
    pos = {}
    for v in cfg["connection"].values():
        items = gen.parse_join(v) if isinstance(v, str) else None
        if items is None and isinstance(v, str):
            return False
        seq = [(i["type"], i["name"], i["prio"], i["port"]) for i in items] if items is not None else [
            (c["component_type"], c["component_name"], c.get("priority"), c.get("output_port")) for c in v]
        for n, (t, nm, prio, port) in enumerate(seq):
            first, last = n == 0, n == len(seq) - 1
            if first != (t == "faucet") or last != (t == "drain") or t == "launch":
                return False
            if prio or port not in (None, "out"):
                return False
            if pos.setdefault((t, nm), (n, last)) != (n, last):
                return False
    return True
