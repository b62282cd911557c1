"""An observer sees all traffic, and changes nothing."""
import json
from collections import Counter
from hypothesis import strategies as st
from . import data, nets
from .fw import Violation, short

ID = "C21"
DRIVER = True
WORKERS = 16
EXAMPLES = {"quick": 3000, "thorough": 120000}
RULE = ("a case is an acyclic network run with an observer, which may be slow and whose channel may be small; what it is told is compared "
        "with the data of every source and drain and between what enters and leaves each component; non-trivial: at least 4 messages on "
        "at least 3 connections were told")
ASSUMPTIONS = ["programs copy their input as it is", "the observer keeps reading until the run ends"]


@st.composite
def cases(draw, tier):
    c = draw(nets.seldom_wide(nets.net(max_nodes=7 if tier == "quick" else 11, stdin=False, drains=("file",), data=nets.data_spec(big=draw(st.integers(0, 3)) == 0)), 30))
    c["cap"] = draw(st.sampled_from([0, 0, 1, 1, 2, 8, 64]))
    c["slow"] = draw(st.sampled_from([0, 0, 0, 20]))
    return c


def strategy(tier):
    return cases(tier)


def run(case, ctx):
    cfg, _ = nets.config(case, ctx)
    r = ctx.driver({"cmd": "net", "config": json.dumps(cfg), "spy": case["cap"], "slow_us": case["slow"]})
    if "ok" not in r:
        raise Violation("the run failed: %s" % short(json.dumps({k: v for k, v in r.items() if k != "spy"})))
    got = nets.check_drains(case, ctx, {})
    edges = {}
    for m in r["spy"]:
        if m["msg"] in ("finished", "skipped"):
            continue
        edges.setdefault((tuple(m["src"]), tuple(m["dst"]), m["port"]), []).append(bytes.fromhex(m["msg"]))
    check_edges(case, got, edges)
    n = sum(len(v) for v in edges.values())
    nets.note(case, ctx)
    ctx.note("channel %d" % case["cap"], "connections %s" % ("< 5" if len(edges) < 5 else "< 15" if len(edges) < 15 else "15 and more"))
    return n >= 4 and len(edges) >= 3


def check_edges(case, got, edges):
    nodes, own = case["nodes"], nets.own(case)
    ins, outs = {}, {}
    for (s, d, p), ms in edges.items():
        outs.setdefault((s, p), {})[d] = ms
        ins.setdefault(d, {})[(s, p)] = ms
    comp = {(n["t"].capitalize(), n["name"]): i for i, n in enumerate(nodes)}

    def find(c):
        return comp.get((c[0].capitalize(), c[1]))

    def joined(c):
        x = ins.get(c, {})
        if len(x) > 1:
            raise Violation("%s is told to be fed by several: %s" % (c, list(x)))
        return b"".join(b"".join(v) for v in x.values())

    def expect(c, port, want):
        x = outs.get((c, port), {})
        if len(x) > 1:
            raise Violation("%s [%s] is told to lead to several: %s" % (c, port, list(x)))
        ms = [m for v in x.values() for m in v]
        if port == "exit":
            w = [want]
        else:
            w = data.messages(want)
        if ms != w:
            raise Violation("%s [%s]: the observer was told %s, but %s was sent" % (c, port, short(ms), short(w)))

    fed = Counter((e[0], e[1]) for e in case["edges"])
    components = set(ins) | set(s for s, _ in outs)
    real = {}
    for c in components:
        i = find(c)
        if i is None and c[0].lower() not in ("junction", "drain"):
            raise Violation("observer was told of %s" % (c,))
        real[c] = i
    names = {}
    for c in components:
        names[real[c]] = c
    for i, n in enumerate(nodes):
        c = names.get(i)
        used = [p for p in ("out", "err", "exit") if fed[(i, p)]]
        if n["t"] == "faucet":
            want = b"".join(own[(i, "out")])
            if c is None:
                if want:
                    raise Violation("nothing told of faucet %s" % n["name"])
                continue
            expect(c, "out", want)
        elif n["t"] == "launch":
            if c is None:
                if not used:
                    continue
                # then its exit status is always awaited
                raise Violation("nothing told of launch %s" % n["name"])
            x = joined(c)
            w = {"out": b"".join(own[(i, "out")]), "err": b"".join(own[(i, "err")]), "exit": b"".join(own[(i, "exit")])}
            if n["op"] in ("cat", "catb", "tac"):
                w["out"] = x + w["out"]
            if n["op"] in ("cate", "catb"):
                w["err"] = x + w["err"]
            for p in used:
                expect(c, p, w[p])
        elif n["t"] in ("buffer", "regulator") and c is not None:
            if len(ins.get(c, {})) > 1 or len(outs.get((c, "out"), {})) > 1:
                raise Violation("%s has several inputs or outputs: %s %s" % (c, list(ins.get(c, {})), list(outs.get((c, "out"), {}))))
            a = [m for v in ins.get(c, {}).values() for m in v]
            b = [m for v in outs.get((c, "out"), {}).values() for m in v]
            if a != b:
                raise Violation("%s: told that %s came in, %s went out" % (c, short(a), short(b)))
        elif n["t"] == "drain":
            b = joined(c) if c is not None else b""
            if b != got[i]:
                raise Violation("drain %s received %s, the observer was told %s" % (n["name"], short(got[i]), short(b)))
    for c in components:
        if c[0].lower() != "junction":
            continue
        a = Counter(m for v in ins.get(c, {}).values() for m in v)
        total = sum(a.values())
        base = None
        o = outs.get((c, "out"), {})
        for d, ms in o.items():
            if not total or len(ms) % total:
                raise Violation("%s: told that %d messages came in, and %d left to %s" % (c, total, len(ms), d))
            k = len(ms) // total
            once = ms[::k]
            if [m for m in once for _ in range(k)] != ms and sorted([m for m in once for _ in range(k)]) != sorted(ms):
                raise Violation("%s to %s: %s" % (c, d, short(ms)))
            if Counter(once) != a:
                raise Violation("%s: told that %s came in, %s left to %s" % (c, short(sorted(a.elements())), short(sorted(once)), d))
            if base is not None and base != once:
                raise Violation("%s: told that its outputs differ: %s and %s" % (c, short(base), short(once)))
            base = once
        i = real[c]
        if i is not None:
            for e in case["edges"]:
                # connections told of under the names the user gave
                v = nodes[e[2]]
                if e[0] == i and v["t"] != "junction" and total and sum(1 for x in case["edges"] if x[2] == e[2]) == 1 and fed[(i, "out")] == 1:
                    if (v["t"].capitalize(), v["name"]) not in [(d[0].capitalize(), d[1]) for d in o]:
                        raise Violation("nothing told of the connection from %s to %s" % (c, v["name"]))
        elif total and not o:
            raise Violation("%s: nothing told of what left it" % (c,))
