"""Networks in which things fail: programs and files which close early, cannot be started, opened, read or written.

What must happen and what may happen is worked out twice: with everything which can close its input early having done so while data
still arrived (most), and with only that which certainly has (least). In the mode "paced" the sources go on until all that has to close
has closed, and then some more, so that both are the same but for a few cases; in the mode "loose" anything may come before anything.
"""
import os, random, re, subprocess, time
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg, gen, nets
from .fw import Inconclusive, Violation, short

CLOSERS = ["exit", "read", "close", "kill", "idle"]
BAD_PROG = ["missing", "plain", "dir", "nul", "cwd", "empty"]
BAD_FAUCET = ["missing", "dir", "secret", "under"]
BAD_DRAIN = ["missing", "dir", "locked", "under"]
NAMES = ["a", "b", "in", "out", "x y", "\u00e9", "Drain:a", "a | b", "1", "n-1", "junction", "*", ""]


@st.composite
def case(draw, mode, own=True, closers=True, most=5):
    """own: things which fail by themselves; closers: programs which close early."""
    nodes, edges = [], []

    def add(t, **kw):
        nodes.append(dict({"t": t, "name": ""}, **kw))
        return len(nodes) - 1

    def leaf(u, port, exit_port=False):
        k = draw(st.integers(0, 9))
        if closers and k < (3 if not exit_port else 1):
            v = add("launch", op="closer", how=draw(st.sampled_from(CLOSERS)), k=draw(st.sampled_from([0, 0, 1, 5, 60])), ms=draw(st.sampled_from([0, 0, 3, 40])))
        elif own and k < 5:
            if draw(st.booleans()):
                v = add("launch", op="bad", how=draw(st.sampled_from(BAD_PROG)))
            else:
                v = add("drain", to="bad", how=draw(st.sampled_from(BAD_DRAIN)))
        elif own and k == 5 and not exit_port:
            v = add("drain", to="full") if draw(st.integers(0, 2)) else add("drain", to="pipe") if not any(n.get("to") == "pipe" for n in nodes) else add("drain", to="full")
        elif k == 6:
            v = add("launch", op="reader", how="reader", ms=draw(st.sampled_from([0, 20, 120])))
        else:
            v = add("drain", to="file")
        edges.append([u, port, v, draw(st.sampled_from("TTFFC"))])

    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        k = draw(st.integers(0, 9))
        if own and k == 0:
            add("faucet", how="bad", bad=draw(st.sampled_from(BAD_FAUCET)))
        elif own and k == 1:
            add("launch", op="bad", how=draw(st.sampled_from(BAD_PROG)))
        elif k < 6:
            add("launch", op="src", both=draw(st.integers(0, 3)) == 0, data=draw(loose_data))
        elif k < 7 and not any(n.get("how") == "stdin" for n in nodes):
            add("faucet", how="stdin", data=draw(loose_data))
        elif k < 8:
            add("faucet", how="fifo" if mode == "paced" else "file", data=draw(loose_data))
        else:
            add("faucet", how="fifo" if mode == "paced" else "file", data=draw(loose_data))
    outs = lambda: [(i, p) for i, n in enumerate(nodes) for p in ports(n)]
    if mode == "loose" and draw(st.integers(0, 4)) == 0:
        # a regulator which has reason to hold things up when what comes after it closes
        s = draw(st.integers(0, len(nodes) - 1))
        if nodes[s].get("data"):
            nodes[s]["data"].update(n=40, style=4)
        r = add("regulator", buffered=draw(st.sampled_from([[0, 1], [1, 3], [2, 6]])), watch_all=True)
        b = add("buffer")
        c = add("launch", op="closer", how=draw(st.sampled_from(["idle", "idle", "idle", "read", "kill", "close"])), k=draw(st.sampled_from([0, 1, 5, 60])), ms=draw(st.sampled_from([3, 60, 60, 150])))
        for u, v in [(s, r), (r, b), (b, c)]:
            edges.append([u, "out", v, draw(st.sampled_from("TTFFC"))])
    for _ in range(draw(st.integers(0, most))):
        t = draw(st.sampled_from(["launch", "launch", "junction", "junction", "buffer", "regulator"]))
        kw = {}
        if t == "launch":
            k = draw(st.integers(0, 9))
            if own and k == 0:
                kw = {"op": "bad", "how": draw(st.sampled_from(BAD_PROG))}
            elif closers and k == 1:
                kw = {"op": "part", "k": draw(st.sampled_from([0, 1, 3, 9])), "how": draw(st.sampled_from(["exit", "kill"]))}
            else:
                kw = {"op": "cat", "ms": draw(st.sampled_from([0, 0, 0, 30]))}
        av = outs()
        us = [draw(st.sampled_from(av)) for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
        us = list(dict.fromkeys(us))
        v = add(t, **kw)
        edges += [[u, p, v, draw(st.sampled_from("TTFFC"))] for u, p in us]
    fed = {(e[0], e[1]) for e in edges}
    for i, n in enumerate(list(nodes)):
        for p in ports(n):
            for _ in range(draw(st.sampled_from([1, 1, 2, 3])) if (i, p) not in fed else draw(st.sampled_from([0, 0, 1]))):
                leaf(i, p)
    for i, n in enumerate(list(nodes)):
        if n["t"] == "launch" and draw(st.integers(0, 5)) == 0:
            for _ in range(draw(st.sampled_from([1, 1, 2]))):
                leaf(i, "exit", True)
    for v, n in enumerate(nodes):
        # several inputs, for which pa2 adds a junction
        if n.get("op") in ("closer", "reader") or n.get("to") == "file":
            if draw(st.integers(0, 4 if n.get("op") == "closer" else 9)) == 0:
                have = [(e[0], e[1]) for e in edges if e[2] == v]
                more = [x for x in outs() if x not in have and x[0] < v]
                if more and have[0][1] != "exit":
                    u, p = draw(st.sampled_from(more))
                    edges.append([u, p, v, draw(st.sampled_from("TTFFC"))])
    if mode == "loose":
        bufs = [i for i, n in enumerate(nodes) if n["t"] == "buffer"]
        for i, n in enumerate(nodes):
            if n["t"] == "regulator":
                up = nets.before(edges, i)
                n["watch"] = [b for b in bufs if b not in up and (n.get("watch_all") or draw(st.booleans()))]
    names = draw(st.lists(st.sampled_from(NAMES), max_size=4))
    return {"mode": mode, "nodes": nodes, "edges": edges, "names": names, "fmt": draw(st.sampled_from(["json", "json", "yaml"]))}


loose_data = st.fixed_dictionaries({"n": st.one_of(st.integers(0, 5), st.integers(0, 60), st.sampled_from([0, 1, 300])), "style": st.sampled_from([0, 0, 1, 2, 3, 4]), "seed": st.integers(0, 9), "tail": st.booleans()}).map(nets.limit)


def ports(n):
    if n["t"] == "drain":
        return []
    if n["t"] == "launch":
        if n["op"] in ("closer", "reader"):
            return []
        if n["op"] == "src" and n["both"]:
            return ["out", "err"]
    return ["out"]


# ---------------------------------------------------------------------------------------------- model

class Model:
    """dead: the leaves which have closed their input while data still arrived. ignore: ports whose closed T connections are taken as open."""

    def __init__(self, case, most, ignore=None, other=None):
        self.nodes, self.edges = nodes, edges = case["nodes"], case["edges"]
        self.by, self.into = {}, {}
        for e in edges:
            self.by.setdefault((e[0], e[1]), []).append(e)
            self.into.setdefault(e[2], []).append(e)
        paced = case["mode"] == "paced"
        # does data arrive?
        flow = {}
        for i, n in enumerate(nodes):
            has = any(flow.get((e[0], e[1])) for e in self.into.get(i, []))
            for p in ("out", "err"):
                if n["t"] == "faucet":
                    flow[(i, p)] = n["how"] != "bad" and (paced or n["data"]["n"] > 0)
                elif n["t"] == "launch":
                    flow[(i, p)] = {"src": paced or n.get("data", {}).get("n", 0) > 0, "cat": has, "part": has and most}.get(n["op"], False) and p in ports(n)
                else:
                    flow[(i, p)] = has
            if other is not None and n.get("both"):
                # once told at one of its outputs it ends, perhaps before anything is noticed at the other
                for p, q in (("out", "err"), ("err", "out")):
                    flow[(i, p)] = flow[(i, p)] and (i, q) not in other.ended
            # too little for it to be certain that anything is noticed
            flow[(i, "exit")] = most and n["t"] == "launch" and n["op"] != "bad"
        self.flow = flow
        dead = set()
        for i, n in enumerate(nodes):
            bad = n.get("op") == "bad" or n.get("to") == "bad"
            early = n.get("op") in ("closer", "part")
            late = n.get("to") in ("full", "pipe")
            fed = any(flow[(e[0], e[1])] for e in self.into.get(i, []))
            if most and (bad or early or late) or not most and paced and (bad or early and fed):
                dead.add(i)
        self.dead, self.ended, self.dying = set(dead), set(), set()
        while True:
            before = (len(self.dead), len(self.ended), len(self.dying))
            for (u, p), es in self.by.items():
                if (u, p) in self.ended or not flow[(u, p)] or not most and p == "exit":
                    continue
                if (u, p) == ignore:
                    continue
                closed = [e for e in es if e[2] in self.dead]
                if any(e[3] == "T" for e in closed) or len(closed) == len(es) and all(e[3] == "F" for e in es):
                    self.ended.add((u, p))
                    if p == "exit":
                        continue
                    n = nodes[u]
                    if n["t"] == "launch":
                        self.dying.add(u)
                        if n["op"] in ("cat", "part"):
                            self.dead.add(u)
                    else:
                        self.dead.add(u)
            if before == (len(self.dead), len(self.ended), len(self.dying)):
                break
        # T connections which are closed early, by sending port
        self.errors = {}
        for up, es in self.by.items():
            if up in self.ended or up == ignore:
                c = [e for e in es if e[3] == "T" and e[2] in self.dead]
                if c:
                    self.errors[up] = c
        # streams, and whether something may be missing
        self.inc, self.streams = {}, {}
        for i, n in enumerate(nodes):
            inc = any(self.inc[(e[0], e[1])] for e in self.into.get(i, []))
            s = Counter()
            for e in self.into.get(i, []):
                s += self.streams[(e[0], e[1])]
            self.inc[(i, "in")], self.streams[(i, "in")] = inc, s
            for p in ("out", "err", "exit"):
                self.inc[(i, p)] = (i, p) in self.ended
                if n["t"] == "faucet":
                    self.streams[(i, p)] = Counter() if n["how"] == "bad" else Counter({(i, p): 1})
                elif n["t"] == "launch":
                    if n["op"] == "bad":
                        self.streams[(i, p)] = Counter()
                    elif p == "exit":
                        self.streams[(i, p)] = Counter({(i, p): 1})
                    elif n["op"] == "src":
                        self.streams[(i, p)] = Counter({(i, p): 1})
                        # what it had written before it was told is not lost
                        self.inc[(i, p)] |= case["mode"] == "loose" and i in self.dying
                    elif n["op"] in ("cat", "part"):
                        self.streams[(i, p)] = s
                        self.inc[(i, p)] |= inc or i in self.dying or n["op"] == "part"
                    else:
                        self.streams[(i, p)] = Counter()
                else:
                    self.streams[(i, p)] = s
                    self.inc[(i, p)] |= inc

    def above(self, u):
        up, todo = set(), [u]
        while todo:
            x = todo.pop()
            for e in self.into.get(x, []):
                if e[0] not in up:
                    up.add(e[0])
                    todo.append(e[0])
        return up


def certain_errors(case, least, most):
    """Groups of connections, of each of which at least one must be reported."""
    r = []
    for (u, p), es in least.errors.items():
        if p == "exit":
            continue
        # Could it be cut off before it sees that the connection is closed?
        m = Model(case, True, ignore=(u, p))
        up = m.above(u) | {u}
        if any(x in m.dying or x in m.dead or (x, q) in m.ended for x in up for q in ("out", "err")):
            continue
        r.append(((u, p), most.errors[(u, p)]))
    # a program has one report, whichever of its outputs it is about
    g = {}
    for (u, p), es in r:
        g.setdefault(u, []).extend(es)
        g[u] += most.errors.get((u, "exit"), [])
    return list(g.items())


# ---------------------------------------------------------------------------------------------- running

def names_of(case):
    used, r = set(), []
    pool = list(case["names"])
    for i, n in enumerate(case["nodes"]):
        nm = "n%d" % i
        if pool and (n["t"], pool[0]) not in used:
            nm = pool.pop(0)
        used.add((n["t"], nm))
        r.append(nm)
    return r


def bad_program(ctx, how, i):
    if how == "missing":
        return {"cmd": ctx.path("no_such_program")}
    if how == "plain":
        return {"cmd": ctx.write("plain%d" % i, b"#!/bin/sh\n")}
    if how == "dir":
        return {"cmd": ctx.dir}
    if how == "nul":
        return {"cmd": ctx.hp, "arg": ["x:0", "a\0b"]}
    if how == "cwd":
        return {"cmd": ctx.hp, "arg": ["x:0"], "path": ctx.path("no_such_directory")}
    return {"cmd": ""}


class Run:
    pass


def run(case, ctx):
    """Runs it, returns everything seen."""
    nodes, edges, paced = case["nodes"], case["edges"], case["mode"] == "paced"
    most = Model(case, True)
    least = Model(case, False, other=most)
    o = Run()
    o.least, o.most = least, most
    o.names = names = names_of(case)
    cfg = {}
    feeders, stdin, fds = [], b"", []
    gone = {}
    for i, n in enumerate(nodes):
        if n.get("op") in ("closer", "part") and i in least.dead or i in least.dying and n.get("op") == "cat":
            gone[i] = ctx.path("gone%d" % i)
    told = {i: any((i, p) in least.ended for p in ("out", "err")) for i in range(len(nodes))}
    own = {}
    o.own = own

    def src(i, n):
        if paced:
            # events, of those before which it does not come only, would also do
            us = 1500
            return "src:%d:%d:%d:200:20000:%s:%s" % (2 * i, 2 * i + 1 if n.get("both") else -1, us, ctx.path("sent%d" % i), "" if told[i] else ",".join(gone.values()) or ctx.dir)
        b = [nets.tokens(2 * i, n["data"]["n"], n["data"]["style"], n["data"]["seed"], n["data"]["tail"]),
             nets.tokens(2 * i + 1, n["data"]["n"], n["data"]["style"], n["data"]["seed"], n["data"]["tail"]) if n.get("both") else []]
        own[(i, "out")], own[(i, "err")] = b
        return [b"".join(x) for x in b]

    for i, n in enumerate(nodes):
        if n["t"] == "faucet":
            how = n["how"]
            if how == "bad":
                p = {"missing": ctx.path("missing%d" % i), "dir": ctx.dir, "secret": ctx.path("secret%d" % i), "under": ctx.path("pa2.cfg/x")}[n["bad"]]
                if n["bad"] == "secret":
                    ctx.write("secret%d" % i, b"secret\n")
                    os.chmod(p, 0)
            elif how == "fifo":
                p = ctx.path("fifo%d" % i)
                os.mkfifo(p)
                feeders.append((i, n, p))
            elif how == "stdin" and paced:
                p = "-"
                rd, wr = os.pipe()
                stdin = rd
                fds.append(rd)
                feeders.append((i, n, wr))
            else:
                b = src(i, n)[0]
                p = "-" if how == "stdin" else ctx.write("src%d" % i, b)
                if how == "stdin":
                    stdin = b
            cfg.setdefault("faucet", {})[names[i]] = {"source": p}
        elif n["t"] == "drain":
            if n["to"] == "bad":
                p = {"missing": ctx.path("missing%d/x" % i), "dir": ctx.dir, "locked": ctx.path("locked%d" % i), "under": ctx.path("pa2.cfg/x")}[n["how"]]
                if n["how"] == "locked":
                    ctx.write("locked%d" % i, b"locked\n")
                    os.chmod(p, 0o444)
            else:
                p = {"file": ctx.path("out%d" % i), "full": "/dev/full", "pipe": "-"}[n["to"]]
            cfg.setdefault("drain", {})[names[i]] = {"destination": p}
        elif n["t"] == "regulator":
            c = {"buffered": n.get("buffered", [2, 6])}
            if n.get("watch"):
                c["monitored_buffers"] = [names[b] for b in n["watch"]]
            cfg.setdefault("regulator", {})[names[i]] = c
        elif n["t"] == "launch":
            op = n["op"]
            if op == "bad":
                cfg.setdefault("launch", {})[names[i]] = bad_program(ctx, n["how"], i)
                continue
            a = ["epx:7"]
            if op == "src":
                x = src(i, n)
                if paced:
                    a.append(x)
                elif n["both"]:
                    a.append("bf:%s:%s::0" % (ctx.write("o%d" % i, x[0]), ctx.write("e%d" % i, x[1])))
                else:
                    a.append("of:%s::0" % ctx.write("o%d" % i, x[0]))
            elif op == "cat":
                if i in gone:
                    a.append("ep:" + gone[i])
                a.append("cat::0")
                if i in gone:
                    a.append("wf:" + gone[i])
                if n["ms"]:
                    a += ["co", "sl:%d" % n["ms"]]
            elif op == "part":
                g = ctx.path("gone%d" % i)
                a += ["ep:" + g, "cl:%d" % n["k"], "ci", "wf:" + g]
            elif op == "reader":
                a += ["rec:" + ctx.path("out%d" % i), "sl:%d" % n["ms"]]
            else:
                g = ctx.path("gone%d" % i)
                a.append("rn:%d" % n["k"])
                if n["how"] == "idle":
                    a += ["sl:%d" % (n["ms"] + 10)]
                elif n["how"] == "close":
                    a += ["ci", "wf:" + g, "sl:%d" % n["ms"]]
                if n["how"] != "close":
                    a += ["ci", "wf:" + g]
            a += ["wf:" + ctx.path("done%d" % i)]
            if n.get("how") == "kill":
                a.append("k:9")
            cfg.setdefault("launch", {})[names[i]] = {"cmd": ctx.hp, "arg": a}
    r = random.Random(len(edges) * 7 + len(nodes))
    cfg["connection"] = {}
    for k, e in enumerate(edges):
        cfg["connection"]["k%d" % k] = gen.as_objects([
            {"type": nodes[e[0]]["t"], "name": names[e[0]], "prio": None, "brk": None, "port": e[1]},
            {"type": nodes[e[2]]["t"], "name": names[e[2]], "prio": 0, "brk": gen.BRK[e[3]], "port": None}])
    procs = []
    stdout = None
    try:
        for i, n, where in feeders:
            arg = src(i, n)
            if isinstance(where, str):
                # opening it waits for pa2
                p = subprocess.Popen(["/bin/sh", "-c", 'exec "$0" "$@" >"$F"', ctx.hp, arg], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                     env={"F": where, "PATH": "/usr/bin:/bin"}, start_new_session=True)
            else:
                p = subprocess.Popen([ctx.hp, arg], stdin=subprocess.DEVNULL, stdout=where, stderr=subprocess.DEVNULL, start_new_session=True)
                os.close(where)
            procs.append((i, n, p))
        kw = {}
        if any(n.get("to") == "pipe" for n in nodes):
            rd, wr = os.pipe()
            os.close(rd)
            kw["stdout"] = stdout = wr
        o.r = ctx.process(cg.text_of(cfg, case["fmt"]), stdin=stdin, fmt=case["fmt"], **kw)
        o.done = {i for i in range(len(nodes)) if ctx.exists("done%d" % i)}
        while fds:
            os.close(fds.pop())
        for i, n, p in procs:
            if n["t"] == "faucet":
                # its end is seen at the latest now
                try:
                    p.wait(30)
                except subprocess.TimeoutExpired:
                    pass
    finally:
        for f in fds:
            os.close(f)
        for i, n, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        if stdout is not None:
            os.close(stdout)
    o.sent = {}
    if paced:
        for i, n in enumerate(nodes):
            x = ctx.read("sent%d" % i)
            if x:
                a, b, why = x.decode().split()
                o.sent[i] = (int(a), int(b), why)
                own[(i, "out")] = [b"<%d.%d.>\n" % (2 * i, k) for k in range(int(a))]
                own[(i, "err")] = [b"<%d.%d.>\n" % (2 * i + 1, k) for k in range(int(b))]
    o.lines = report(o.r.err)
    o.got = {i: ctx.read("out%d" % i) for i, n in enumerate(nodes) if n.get("to") == "file" or n.get("op") == "reader"}
    if any(s[2] == "limit" for s in o.sent.values()):
        o.limit = [i for i, s in o.sent.items() if s[2] == "limit"]
    else:
        o.limit = []
    return o


HEAD = b"Error(s) have occurred:"


def report(err):
    """The lines of an error report (None if it is not one)."""
    if not err:
        return []
    if not err.startswith(HEAD):
        return None
    return [l.strip()[2:] for l in err[len(HEAD):].decode("utf8", "replace").split("\n") if l.strip()]


def label(case, o, i):
    return case["nodes"][i]["t"].capitalize() + ":" + o.names[i]


# ---------------------------------------------------------------------------------------------- judging

def must_fail(case, o):
    """Is it certain that something failed?"""
    for i, n in enumerate(case["nodes"]):
        if n.get("op") == "bad" or n.get("to") == "bad" or n.get("how") == "bad":
            return "%s failed" % label(case, o, i)
        if n.get("to") in ("full", "pipe") and surely_written(case, o, i):
            return "%s cannot be written to" % label(case, o, i)
    if case["mode"] == "paced" and o.least.errors:
        (u, p), es = next(iter(o.least.errors.items()))
        return "the connection of kind T from %s to %s was closed early" % (label(case, o, u), label(case, o, es[0][2]))


def may_fail(case, o):
    return bool(o.most.errors) or any(n.get("op") == "bad" or n.get("to") in ("bad", "full", "pipe") or n.get("how") == "bad" for n in case["nodes"])


def surely_written(case, o, i):
    m = o.most
    if m.inc[(i, "in")] and not inc_only_through(case, i):
        return False
    return any(c and (s[1] == "exit" or o.own.get(s)) for s, c in m.streams[(i, "in")].items())


def inc_only_through(case, i):
    """Would everything arrive at drain i if it was a good one?"""
    nodes = [dict(n, to="file") if k == i else n for k, n in enumerate(case["nodes"])]
    return not Model(dict(case, nodes=nodes), True).inc[(i, "in")]


def judge_status(case, o):
    if o.lines is None:
        raise Violation("stderr is no report: %s" % short(o.r.err))
    if (o.r.rc != 0) != bool(o.lines) or o.r.rc not in (0, 1):
        raise Violation("status %d with stderr %s" % (o.r.rc, short(o.r.err)))
    if o.r.rc == 0:
        w = must_fail(case, o)
        if w:
            raise Violation("status 0 although %s" % w)
    elif not may_fail(case, o):
        raise Violation("status 1 although nothing failed: %s" % short(o.r.err))


def expected(case, o, i):
    """The tokens node i receives when nothing is lost, or None if that is not known."""
    w = Counter()
    for (s, p), c in o.most.streams[(i, "in")].items():
        n = case["nodes"][s]
        if p == "exit":
            continue
        if (s, p) not in o.own:
            return None
        for t in o.own[(s, p)]:
            w[t] += c
    return w


def judge_data(case, o, ctx):
    """What is complete when it has to be, and a beginning otherwise."""
    for i, b in o.got.items():
        n = case["nodes"][i]
        what = label(case, o, i)
        if b is None:
            if n["t"] == "launch" and i not in o.done:
                raise Violation("%s: a program which reads all its input did not come to its end" % what)
            raise Violation("%s: no file" % what)
        m = o.most
        want = expected(case, o, i)
        exits = Counter({s: c for s, c in m.streams[(i, "in")].items() if s[1] == "exit"})
        if want is None:
            continue
        if not m.inc[(i, "in")]:
            toks = nets.split(b, what)
            got = Counter(t[2] for t in toks if t[0] is not None)
            if got != want:
                more, less = got - want, want - got
                raise Violation("%s: %d tokens too many (%s), %d missing (%s)" % (what, sum(more.values()), short(list(more.items())[:3]), sum(less.values()), short(list(less.items())[:3])))
            digits = [t[2] for t in toks if t[0] is None]
            if len(digits) != sum(exits.values()):
                raise Violation("%s: exit statuses %s of %d programs" % (what, digits, sum(exits.values())))
            for s, c in exits.items():
                ok = [b"0"] if s[0] not in m.dying else [b"0", b"7"]
                if case["nodes"][s[0]].get("how") == "kill":
                    ok = [b"_"] if s[0] not in m.dying else [b"_", b"7"]
                if sum(digits.count(x) for x in ok) < c:
                    raise Violation("%s: exit statuses %s" % (what, digits))
            if exits:
                ctx.note("exit status received")
            seen = {}
            for s, k, t in toks:
                if s is None:
                    continue
                c = seen.setdefault(s, Counter())
                if k > 0 and c[k - 1] <= c[k]:
                    raise Violation("%s: message %d of source %d before its predecessor" % (what, k, s))
                c[k] += 1
            ctx.note("complete " + n["t"])
        elif len(m.streams[(i, "in")]) == 1 and not exits:
            (s, c), = m.streams[(i, "in")].items()
            if c == 1:
                whole = b"".join(o.own[s])
                if not whole.startswith(b):
                    raise Violation("%s: not a beginning of what was sent: %s" % (what, short(b)))
                ctx.note("beginning of the data")


def judge_told(case, o, ctx):
    for i, (a, b, why) in o.sent.items():
        n = case["nodes"][i]
        if why == "error":
            raise Violation("%s: a write failed, but not as broken pipe" % label(case, o, i))
        may = any((i, p) in o.most.ended for p in ("out", "err"))
        must = any((i, p) in o.least.ended for p in ("out", "err"))
        if why == "told":
            # a failed run ends without reading all of its stdin
            if not may and n.get("how") != "stdin":
                raise Violation("%s: was stopped although one of its connections remained" % label(case, o, i))
            ctx.note("sender told")
        elif must:
            raise Violation("%s: was not told that all its connections were closed" % label(case, o, i))
        elif why == "limit":
            raise Violation("%s: sent for 20 seconds, and still not all that closes early was closed to %s" % (label(case, o, i), "it"))
        else:
            ctx.note("sender to its end")


def judge_programs(case, o):
    if o.r.left:
        raise Violation("a program is still running after pa2 has ended")
    for i, n in enumerate(case["nodes"]):
        if n["t"] == "launch" and n["op"] in ("closer", "reader") and i not in o.done:
            raise Violation("%s did not come to its end before pa2 did" % label(case, o, i))


IMPLICIT = re.compile(r"Junction:junction_\d+\Z")
REASON = {"missing": "No such file or directory", "dir": "Is a directory", "secret": "Permission denied", "locked": "Permission denied", "under": "Not a directory"}


def judge_report(case, o, ctx):
    nodes, edges = case["nodes"], case["edges"]
    labels = {label(case, o, i): i for i in range(len(nodes))}
    outd, ind = Counter((e[0], e[1]) for e in edges), Counter(e[2] for e in edges)
    parsed = []
    for l in o.lines or []:
        for m in re.finditer(r" \| ", l):
            a, rest = l[:m.start()], l[m.end():]
            if a not in labels and not IMPLICIT.match(a):
                continue
            for m2 in re.finditer(r' - "', rest):
                b, d = rest[:m2.start()], rest[m2.end():]
                if b in labels or IMPLICIT.match(b) or b == "Unknown Destination":
                    parsed.append((a, b, d.rstrip('"')))
                    break
            else:
                continue
            break
        else:
            raise Violation("a report about something unknown: %s" % l)
    left = Counter(parsed)
    if any(c > 1 for c in left.values()):
        raise Violation("reported twice: %s" % o.lines)

    def take(pred, must, what):
        f = [x for x in left if pred(*x)]
        if not f and must:
            raise Violation("no report of %s in %s" % (what, o.lines))
        if len(f) > 1 and must is not None:
            raise Violation("%d reports of %s in %s" % (len(f), what, o.lines))
        for x in f:
            del left[x]
        return bool(f)

    # drains first, as such a line may also have the name of what is connected to it
    for i, n in sorted(enumerate(nodes), key=lambda x: x[1]["t"] != "drain"):
        me = label(case, o, i)
        if n.get("how") == "bad" and n["t"] == "faucet":
            take(lambda a, b, d: a == me and cannot_open(d, n["bad"]), True, "%s, %s" % (me, REASON[n["bad"]]))
            ctx.note("faucet which cannot be read")
        elif n.get("op") == "bad":
            c = "" if n["how"] == "empty" else "no_such_program" if n["how"] == "missing" else "plain%d" % i if n["how"] == "plain" else os.path.basename(ctx.dir) if n["how"] == "dir" else os.path.basename(ctx.hp)
            take(lambda a, b, d: a == me and "pawn" in d and c in d, True, "%s, which cannot be started" % me)
            ctx.note("program which cannot be started")
        elif n.get("to") == "bad":
            take(lambda a, b, d: (b == me or a == me) and cannot_open(d, n["how"]), True, "%s, %s" % (me, REASON[n["how"]]))
            ctx.note("drain which cannot be opened")
        elif n.get("to") in ("full", "pipe"):
            def broken(a, b, d):
                return (b == me or a == me) and ("No space" in d if n["to"] == "full" else "BrokenPipe" in d or "roken pipe" in d)
            if take(broken, surely_written(case, o, i), "%s, which cannot be written to" % me):
                ctx.note("drain which cannot be written to")

    def is_edge(e):
        src, dst = label(case, o, e[0]), label(case, o, e[2])

        def pred(a, b, d):
            sa = IMPLICIT.match(a) and a not in labels if outd[(e[0], e[1])] > 1 else a == src
            # a junction in front of several inputs
            sb = b == dst or ind[e[2]] > 1 and IMPLICIT.match(b) and b not in labels
            return bool(sa and sb and "losed" in d)
        return pred

    for u, es in certain_errors(case, o.least, o.most) if case["mode"] == "paced" else []:
        ps = [is_edge(e) for e in es]
        if not any(p(*x) for p in ps for x in left):
            raise Violation("no report of a closed connection from %s to %s in %s" % (label(case, o, u), [label(case, o, e[2]) for e in es], o.lines))
        ctx.note("closed connection reported")
    for x in left:
        if not any(is_edge(e)(*x) for es in o.most.errors.values() for e in es):
            raise Violation("reported, but did not happen: %s" % (x,))
    senders = Counter(x[0] for x in left)
    if any(c > 1 for c in senders.values()):
        raise Violation("a component with two reports: %s" % o.lines)
    if o.r.rc == 0 and o.lines:
        raise Violation("a report with status 0: %s" % o.lines)


def nontrivial(case, o, ctx):
    m = o.most
    if not (m.dead or any(n.get("how") == "bad" for n in case["nodes"])):
        return False
    for (u, p) in m.ended:
        if p == "exit":
            continue
        ctx.note("%s closed early" % case["nodes"][u]["t"])
    for e in case["edges"]:
        if e[2] in m.dead and m.flow[(e[0], e[1])]:
            ctx.note("%s closed, %s" % (e[3], "last" if len(m.by[(e[0], e[1])]) == 1 else "with siblings"))
    return True


def cannot_open(d, how):
    """async-std words it in its own way when a file cannot be opened."""
    return REASON[how] in d or "could not open" in d
