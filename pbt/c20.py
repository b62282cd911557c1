"""Loops: every message goes round as often as it is sent round, and each pass delivers it once to every branch."""
import random
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg, gen
from .fw import Violation, short

ID = "C20"
WORKERS = 16
EXAMPLES = {"quick": 5000, "thorough": 60000}
RULE = ("a case is either one loop (with buffers, programs, junctions in it at any position; the counter in each message says how often it goes "
        "round; the program in it ends when all of them, or some, have left) or several junctions and programs connected at random, also in "
        "circles, where each message says at which programs it takes which output; non-trivial: a message came to a junction for a second time")
ASSUMPTIONS = ["every loop has a program which ends once it has seen the messages the model says it sees (or, in the cases named early, fewer)",
               "a loop without buffer has no more than 4 messages", "each program of a network with several circles has a buffer before it"]

brks = st.lists(st.sampled_from("TFC"), min_size=40, max_size=40)
part = st.sampled_from(["b", "b", "cat", "cat", "j", "r"])


@st.composite
def count_case(draw):
    implicit = draw(st.sampled_from([False, False, False, True]))
    before = [] if implicit else draw(st.lists(part, min_size=draw(st.integers(0, 2)), max_size=3))
    after = draw(st.lists(part, min_size=draw(st.integers(0, 1)), max_size=3))
    nobuf = "b" not in before + after
    most = 4 if nobuf else draw(st.sampled_from([1, 2, 5, 20, 60]))
    return {"how": "count", "before": before, "after": after, "c": draw(st.lists(st.integers(0, draw(st.sampled_from([1, 3, 3, 8]))), min_size=draw(st.sampled_from([1, 1, most])), max_size=most)),
            "pad": draw(st.sampled_from([0, 0, 5, 240, 251, 252, 253, 600])), "us": draw(st.sampled_from([0, 0, 0, 300])),
            "prio": draw(st.sampled_from([0, 0, 5, 1, -1])), "prio0": draw(st.sampled_from([0, 0, 0, 1])), "source": draw(st.sampled_from(["file", "stdin", "gen"])), "watch": draw(st.booleans()),
            "early": draw(st.sampled_from([None, None, None, 0, 0.2, 0.5, 0.9])), "brk": draw(brks), "exit": draw(st.booleans()),
            "implicit": implicit, "copies": draw(gen.rare(40).flatmap(lambda x: st.sampled_from([300, 2000, 8000]) if x and not nobuf else st.just(1))),
            "fmt": draw(st.sampled_from(["json", "yaml"]))}


@st.composite
def route_case(draw):
    nj = draw(st.integers(1, 3))
    np_ = draw(st.integers(1, 4))
    progs = []
    for i in range(np_):
        outs = {}
        for port in ("out", "err"):
            outs[port] = draw(st.lists(st.one_of(st.integers(0, nj - 1), st.integers(0, nj - 1), st.just("d")), max_size=2, unique=True))
        progs.append({"in": draw(st.integers(0, nj - 1)), "outs": outs, "pre": draw(st.lists(st.sampled_from(["cat", "b", "j"]), max_size=1)),
                      "post": draw(st.lists(st.sampled_from(["cat", "b", "j"]), max_size=1)), "us": draw(st.sampled_from([0, 0, 0, 200]))})
    jj = draw(st.lists(st.tuples(st.integers(0, nj - 1), st.integers(0, nj - 1)).filter(lambda t: t[0] < t[1]).map(list), max_size=2, unique_by=tuple)) if nj > 1 else []
    most = draw(st.sampled_from([1, 3, 10, 40]))
    msgs = draw(st.lists(st.text("oe", max_size=draw(st.sampled_from([2, 3, 5]))), min_size=draw(st.sampled_from([1, 1, most])), max_size=most))
    return {"how": "route", "nj": nj, "progs": progs, "jj": jj, "msgs": msgs, "entry": draw(st.lists(st.integers(0, nj - 1), min_size=1, max_size=2, unique=True)),
            "pad": draw(st.sampled_from([0, 0, 5, 240, 251, 252, 253, 600])), "prio": draw(st.lists(st.sampled_from([0, 0, 1, 5, -1]), min_size=20, max_size=20)),
            "brk": draw(brks), "fmt": draw(st.sampled_from(["json", "yaml"]))}


def strategy(tier):
    return st.one_of(count_case(), route_case())


class Builder:
    """Connections as objects, one for each pair (a chain of parts is several of them)."""

    def __init__(self, case):
        self.case, self.conns, self.k, self.cfg = case, {}, 0, {}

    def edge(self, a, b, port="out", prio=0, brk=None):
        brk = brk or self.case["brk"][self.k % 40]
        self.conns["k%d" % self.k] = gen.as_objects([
            {"type": a[0], "name": a[1], "prio": None, "brk": None, "port": port},
            {"type": b[0], "name": b[1], "prio": prio, "brk": gen.BRK[brk], "port": None}])
        self.k += 1

    def add(self, t, n, **kw):
        if kw:
            self.cfg.setdefault(t, {})[n] = kw
        return (t, n)

    def chain(self, a, parts, b, ctx, name, port="out", prio=0, brk=None):
        for i, p in enumerate(parts):
            n = "%s%d" % (name, i)
            if p == "cat":
                x = self.add("launch", n, cmd=ctx.hp, arg=["cat::0"])
            elif p == "r":
                x = self.add("regulator", n, buffered=[0, 2])
            else:
                x = ({"b": "buffer", "j": "junction"}[p], n)
            self.edge(a, x, port, 0, brk)
            a, port = x, "out"
        self.edge(a, b, port, prio, brk)

    def text(self):
        self.cfg["connection"] = self.conns
        return cg.text_of(self.cfg, self.case["fmt"])


def source(b, case, ctx, how, data, name):
    if how == "gen":
        return b.add("launch", name, cmd=ctx.hp, arg=["of:%s::0" % ctx.write(name, data)])
    return b.add("faucet", name, source="-" if how == "stdin" else ctx.write(name, data))


def run(case, ctx):
    return run_count(case, ctx) if case["how"] == "count" else run_route(case, ctx)


def lines_of(x, what):
    if x is None:
        raise Violation("%s: no file" % what)
    if x and not x.endswith(b"\n"):
        raise Violation("%s: torn %s" % (what, short(x[-100:])))
    return x.split(b"\n")[:-1]


def run_count(case, ctx):
    cs = case["c"]
    copies = case.get("copies", 1)
    if copies > 1:
        # Thousands of them, but not for minutes
        cs = (cs * copies)[:12000]
        while sum(cs) + len(cs) > 20000:
            cs = cs[:len(cs) * 3 // 4]
        ctx.note("thousands of messages" if len(cs) > 1000 else "hundreds of messages")
    pad = b"p" * case["pad"]
    total = len(cs)
    if (sum(cs) + total) * (case["us"] + 1000) > 400000:
        case = dict(case, us=0)
    n = int(case["early"] * total) if case["early"] is not None else total
    early = n < total
    b = Builder(case)
    data = b"".join(b"%d m%d %s\n" % (c, i, pad) for i, c in enumerate(cs))
    f = source(b, case, ctx, case["source"], data, "in")
    j = ("junction", "j")
    # With T the run would have to fail when the program ends early
    brk = "FC"[case["brk"][39] == "C"] if early else None
    p = b.add("launch", "p", cmd=ctx.hp, arg=["loop:%d:%d" % (n, case["us"])])
    if case["watch"] and "b" in case["before"]:
        r = b.add("regulator", "r", buffered=[1, 3], monitored_buffers=["a%d" % i for i, x in enumerate(case["before"]) if x == "b"][:1])
        b.edge(f, r, brk=brk)
        f = r
    implicit = case.get("implicit") and not case["before"]
    if implicit:
        # The program has several inputs and its output several connections, and pa2 adds the junctions
        j = p
        case = dict(case, prio=0, prio0=0)
    b.edge(f, j, prio=case["prio0"], brk=brk)
    b.chain(j, case["before"], p, ctx, "a", brk=brk) if not implicit else None
    b.chain(p, case["after"], j, ctx, "z", prio=case["prio"], brk=brk)
    b.edge(p, b.add("drain", "left", destination=ctx.path("left")), "err")
    b.edge(j, b.add("drain", "seen", destination=ctx.path("seen")), brk=brk)
    if case["exit"]:
        b.edge(p, b.add("drain", "x", destination=ctx.path("x")), "exit")
    r = ctx.process(b.text(), stdin=data if case["source"] == "stdin" else b"", fmt=case["fmt"])
    if r.rc != 0 or r.err or r.out:
        raise Violation("status %d, stderr %s, stdout %s" % (r.rc, short(r.err), short(r.out)))
    if case["exit"] and ctx.read("x") != b"0":
        raise Violation("exit status %s" % short(ctx.read("x") or b""))
    left = Counter(lines_of(ctx.read("left"), "left"))
    seen = lines_of(ctx.read("seen"), "seen")
    full = Counter(b"0 m%d %s" % (i, pad) for i in range(total))
    visits = Counter(b"%d m%d %s" % (k, i, pad) for i, c in enumerate(cs) for k in range(c + (not implicit)))
    if early:
        if sum(left.values()) != n or left - full:
            raise Violation("left: %d lines for %d, wrong: %s" % (sum(left.values()), n, short(list((left - full).items())[:3])))
        got = Counter(seen)
        if got - visits:
            raise Violation("seen more often than sent: %s" % short(list((got - visits).items())[:3]))
        # Each branch is written to in any order, so what has left was not necessarily seen by a branch that is told afterwards; but
        # the drain does not close early, and so gets all the junction read.
        for l in left:
            if not got[l] and visits[l]:
                raise Violation("%s left the loop but was not delivered to the drain" % short(l))
    else:
        if left != full:
            raise Violation("left: too many %s, missing %s" % (short(list((left - full).items())[:3]), short(list((full - left).items())[:3])))
        got = Counter(seen)
        if got != visits:
            raise Violation("junction: too many %s, missing %s" % (short(list((got - visits).items())[:3]), short(list((visits - got).items())[:3])))
    last = {}
    for l in seen:
        c, m = l.split(b" ")[:2]
        i = int(m[1:])
        if int(c) != last.get(i, cs[i] + (not implicit)) - 1:
            raise Violation("message %d: pass %s after %s" % (i, c, last.get(i)))
        last[i] = int(c)
    ctx.note("one loop" + (", ended early" if early else ""), "loop with %d buffers" % (case["before"] + case["after"]).count("b"),
             "loop with %d more programs" % (case["before"] + case["after"]).count("cat"), "%s messages" % ("1" if total < 2 else "2-9" if total < 10 else "10 and more"))
    if implicit:
        ctx.note("the junctions of the loop are implicit")
    return any(cs)


def simulate(case, msgs):
    """How often what comes to each junction, what each program reads, and what comes to each drain."""
    nj, progs = case["nj"], case["progs"]
    jin = [Counter() for _ in range(nj)]
    pin = [0] * len(progs)
    drains = {}
    todo = []
    for e in case["entry"]:
        for m in msgs:
            todo.append((e, m))
    n = 0
    while todo:
        j, m = todo.pop()
        jin[j][m] += 1
        n += 1
        if n > 250:
            return None
        todo += [(y, m) for x, y in case["jj"] if x == j]
        for i, p in enumerate(progs):
            if p["in"] != j:
                continue
            pin[i] += 1
            port = {"o": "out", "e": "err"}.get(m[:1])
            if not port:
                continue
            for t in p["outs"][port]:
                if t == "d":
                    drains.setdefault((i, port), Counter())[m[1:]] += 1
                else:
                    todo.append((t, m[1:]))
    return jin, pin, drains


def run_route(case, ctx):
    pad = "p" * case["pad"]
    msgs = ["%s- m%d %s" % (m, i, pad) for i, m in enumerate(case["msgs"])]
    while True:
        s = simulate(case, msgs)
        if s:
            break
        msgs.pop()
    if not msgs:
        return False
    jin, pin, drains = s
    b = Builder(case)
    data = "".join(m + "\n" for m in msgs).encode()
    k = 0

    def prio():
        nonlocal k
        k += 1
        return case["prio"][k % 20]

    for i, e in enumerate(case["entry"]):
        b.edge(source(b, case, ctx, ["file", "stdin"][i], data, "in%d" % i), ("junction", "j%d" % e), prio=prio())
    for x, y in case["jj"]:
        b.edge(("junction", "j%d" % x), ("junction", "j%d" % y), prio=prio())
    for i in range(case["nj"]):
        b.edge(("junction", "j%d" % i), b.add("drain", "j%d" % i, destination=ctx.path("j%d" % i)))
    for i, p in enumerate(case["progs"]):
        us = p["us"] if pin[i] < 100 else 0
        x = b.add("launch", "p%d" % i, cmd=ctx.hp, arg=["route:%d:%d" % (pin[i], us)])
        b.chain(("junction", "j%d" % p["in"]), p["pre"] + ["b"], x, ctx, "a%d_" % i)
        for port, ts in p["outs"].items():
            for n, t in enumerate(ts):
                if t == "d":
                    b.edge(x, b.add("drain", "p%d%s" % (i, port), destination=ctx.path("p%d%s" % (i, port))), port)
                else:
                    b.chain(x, p["post"], ("junction", "j%d" % t), ctx, "z%d%s%d_" % (i, port, n), port=port, prio=prio())
    r = ctx.process(b.text(), stdin=data if len(case["entry"]) > 1 else b"", fmt=case["fmt"])
    if r.rc != 0 or r.err or r.out:
        raise Violation("status %d, stderr %s, stdout %s" % (r.rc, short(r.err), short(r.out)))
    want = {"j%d" % i: c for i, c in enumerate(jin)}
    for (i, port), c in drains.items():
        want["p%d%s" % (i, port)] = c
    for i, p in enumerate(case["progs"]):
        for port, ts in p["outs"].items():
            if "d" in ts:
                want.setdefault("p%d%s" % (i, port), Counter())
    for n, c in want.items():
        got = Counter(x.decode("latin1") for x in lines_of(ctx.read(n), n))
        if got != c:
            raise Violation("drain %s: too many %s, missing %s" % (n, short(list((got - c).items())[:3]), short(list((c - got).items())[:3])))
    again = any(len({m.split(" ", 1)[0] for m in c if (" " + m.split(" ", 1)[1]) == " " + t}) > 1 for c in jin for t in {m.split(" ", 1)[1] for m in c})
    ctx.note("several circles", "%d junctions" % case["nj"], "%d programs" % len(case["progs"]))
    if again:
        ctx.note("a message comes to a junction again")
    return again
