"""Generated acyclic networks, and the model of what every drain may receive.

Data are tokens "<SRC.SEQ.PAYLOAD>" with a line end (or, as the last one of a source, none), exit statuses (one digit or "_"), and
lines which are empty or of "=" only: these are all alike, so only their number is known.
A token can be found again in any stream whatever it was merged with, so every drain's content is read back as a sequence of tokens.
"""
import random, re
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg, gen
from .fw import Violation, short

NAMES = ["a", "b", "x", "in", "out", "junction_1", "junction_2", "junction_0", "junction", "dyn_drain_1", "dyn_drain_0", "dyn_drain", "dyn_connection_1", "dyn_junction_1", "n_1", "A", "0", "_"]
HEAVY = ["junction_%d" % i for i in range(1, 7)] + ["dyn_drain_%d" % i for i in range(1, 6)] + ["dyn_connection_1", "dyn_drain", "junction", "a", "n 1", "", "\u00e9", "junction_1_1", "x[E]"]
KEYS = ["main", "main_1", "main_2", "dyn_connection_1", "dyn_connection_2", "dyn_connection", "k", "k_1", "k_1_1", "a", "b", "junction_1", ""]
IDENT = re.compile("[A-Za-z0-9_]+")
TOKEN = re.compile(rb"(?:<(\d+)\.(\d+)\.[^<>]*>\r?\n?)|[0-9_]|=*\n", re.S)


# ---------------------------------------------------------------------------------------------- data

def tokens(src, n, style, seed, tail):
    """The tokens of one source; only the last one may have no line end. In style 6 with runs of equal lines between them."""
    r = random.Random("%d %d" % (src, seed))
    o = []
    for i in range(n):
        if style == 0:
            p = b""
        elif style in (1, 6):
            p = bytes(r.choice(b"abc xyz") for _ in range(r.randint(0, 12)))
        elif style == 2:
            # arbitrary bytes
            p = bytes(r.choice(ANY) for _ in range(r.randint(0, 40)))
        elif style == 3:
            # around the size of a read
            p = b"x" * (r.choice([255, 510, 765, 256]) + r.randint(-24, 4))
        elif style == 4:
            p = b"y" * r.choice([0, 1, 4090, 8192, 20000])
        else:
            p = b"z" * (r.choice([0, 3, 300]) if i % 7 else 70000)
        end = b"\r\n" if style in (2, 3) and r.random() < 0.3 else b"\n"
        if i == n - 1 and tail:
            end = b""
        o.append(b"<%d.%d.%s>%s" % (src, i, p, end))
        if style == 6 and end and r.random() < 0.5:
            o += [r.choice([b"\n", b"\n", b"=\n", b"=" * 300 + b"\n"])] * r.choice([1, 2, 9, 40])
    return o


ANY = bytes(x for x in range(256) if x not in b"<>\n")


def data_spec(big=True):
    n = st.one_of(st.integers(0, 3), st.integers(0, 12), st.integers(0, 40), st.sampled_from([9, 10, 17, 18, 64, 100, 300] if big else [9, 10, 17, 30]))
    return st.fixed_dictionaries({"n": n, "style": st.sampled_from([0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6] if big else [0, 1, 1, 2, 3, 6]), "seed": st.integers(0, 9), "tail": st.integers(0, 3).map(lambda x: x == 0)})


def limit(d):
    """Keeps the amount of data sane."""
    if d["style"] == 4:
        d["n"] = min(d["n"], 40)
    if d["style"] == 5:
        d["n"] = min(d["n"], 30)
    return d


sizes = st.sampled_from(["", "", "1", "3,7", "254", "255", "256", "100,1,1000", "4096", "65536,1"])


def chunk_sizes(total):
    """Writing one byte at a time is for small data."""
    return lambda s: s if total < 3000 or s not in ("1", "3,7") else "255"


# ---------------------------------------------------------------------------------------------- structure

PASS = ("cat", "tac")


@st.composite
def net(draw, max_nodes=7, kinds=None, multi=True, data=None, slow=True, gens=True, exits=True, names=True, regs=True, stdin=True, drains=("file", "-", "_")):
    data = data or data_spec()
    nodes = []
    edges = []
    used = {}

    def add(t, **kw):
        pool = [n for n in (HEAVY if names == "heavy" else NAMES) if (t, n) not in used] if names else []
        if pool and (names == "heavy" or draw(st.integers(0, 1))):
            nm = draw(st.sampled_from(pool))
        else:
            nm = "n%d" % len(nodes)
        used[(t, nm)] = True
        nodes.append(dict({"t": t, "name": nm}, **kw))
        return len(nodes) - 1

    def source():
        if gens and draw(st.integers(0, 3)) == 0:
            return add_launch(False)
        d = limit(dict(draw(data)))
        how = "file"
        if stdin and not any(x.get("how") == "stdin" for x in nodes) and draw(st.integers(0, 3)) == 0:
            how = "stdin"
        return add("faucet", how=how, data=d)

    def add_launch(inp):
        op = draw(st.sampled_from(["cat", "cat", "cat", "tac", "cate", "catb", "dis"])) if inp else "gen"
        kw = {"op": op, "sizes": draw(sizes), "us": draw(st.sampled_from([0, 0, 0, 0, 200])) if slow else 0}
        kw["o"] = limit(dict(draw(data))) if op == "gen" or draw(st.integers(0, 5)) == 0 else None
        kw["e"] = limit(dict(draw(data))) if op in ("gen", "dis") and draw(st.booleans()) or op not in ("catb", "cate") and draw(st.integers(0, 5)) == 0 else None
        kw["end"] = draw(st.sampled_from([0, 0, 1, 2, 7, 9, "k"])) if exits else 0
        return add("launch", **kw)

    for _ in range(draw(st.integers(1, 2 if max_nodes < 5 else 3))):
        source()
    nmid = draw(st.integers(1, max(1, max_nodes - len(nodes))))
    kinds = kinds or ["launch", "launch", "junction", "junction", "buffer", "regulator", "launch"]
    fed = {}

    def out_choice():
        """A (node, port) to take from; prefers those nothing is connected to yet."""
        c = []
        for i, n in enumerate(nodes):
            if n["t"] == "drain":
                continue
            c.append((i, "out"))
            if n["t"] == "launch":
                if n["op"] in ("cate", "catb", "gen", "dis") or n["e"]:
                    c.append((i, "err"))
                if exits:
                    c.append((i, "exit"))
        free = [x for x in c if x not in fed and x[1] != "exit"]
        if free and draw(st.integers(0, 3)):
            return draw(st.sampled_from(free))
        if multi:
            return draw(st.sampled_from(c))
        free = [x for x in c if x not in fed]
        return draw(st.sampled_from(free)) if free else None

    def connect(v):
        k = draw(st.sampled_from([1, 1, 1, 2, 2, 3])) if multi else 1
        if nodes[v]["t"] == "junction":
            k = draw(st.integers(1, 3))
        srcs = []
        for _ in range(k):
            s = out_choice_before(v)
            if s is not None:
                srcs.append(s)
                fed[s] = True
        for u, p in srcs:
            prio = draw(st.sampled_from([0, 0, 0, 1, 2, -1])) if nodes[v]["t"] == "junction" else 0
            edges.append([u, p, v, prio, draw(st.sampled_from(["terminate", "terminate", "finish", "consume"]))])
        return srcs

    def out_choice_before(v):
        hidden = nodes[v:]
        del nodes[v:]
        try:
            return out_choice()
        finally:
            nodes.extend(hidden)

    for _ in range(nmid):
        t = draw(st.sampled_from(kinds))
        if t == "launch":
            v = add_launch(True)
        elif t == "regulator":
            v = add("regulator", marks=draw(st.one_of(st.none(), st.tuples(st.integers(0, 8), st.integers(0, 20)).map(list))), watch=[])
        else:
            v = add(t)
        if not connect(v):
            nodes.pop()
    for ri, r in enumerate(nodes):
        if r["t"] == "regulator" and regs:
            # Not those before it, which it would stop from ever getting empty
            up = before(edges, ri)
            bufs = [n["name"] for i, n in enumerate(nodes) if n["t"] == "buffer" and i not in up]
            if bufs and r["marks"] is not None:
                r["watch"] = draw(st.lists(st.sampled_from(bufs), max_size=3, unique=True))
    # Every output that has to lead somewhere
    left = [(i, "out") for i, n in enumerate(nodes) if n["t"] not in ("drain", "launch") and (i, "out") not in fed]
    for i, n in enumerate(nodes):
        if n["t"] == "launch":
            for p in ("out", "err", "exit"):
                if (i, p) not in fed and draw(st.integers(0, 2)):
                    left.append((i, p))
            if not any(e[0] == i or e[2] == i for e in edges) and not any(x[0] == i for x in left):
                left.append((i, "out"))
    where = list(drains)
    d = None
    while left or d is None:
        if d is None or draw(st.integers(0, 2)) or not multi:
            w = draw(st.sampled_from(where))
            if w != "file":
                where.remove(w)
            d = add("drain", to=w)
        take = [left.pop(0)] if left else []
        if multi:
            while left and draw(st.integers(0, 3)) == 0:
                take.append(left.pop(0))
            if draw(st.integers(0, 3)) == 0 or not take:
                take.append(out_choice_before(len(nodes)))
        elif not take:
            nodes.pop()
            break
        for u, p in take:
            fed[(u, p)] = True
            edges.append([u, p, d, 0, draw(st.sampled_from(["terminate", "finish", "consume"]))])
    indeg = Counter(e[2] for e in edges)
    for e in edges:
        if nodes[e[2]]["t"] != "junction":
            e[3] = 0
    return {"nodes": nodes, "edges": edges, "rs": draw(st.integers(0, 20)), "fmt": draw(st.sampled_from(["json", "yaml"]))}


@st.composite
def wide(draw, most=40, names=True, stdin=False):
    """Many inputs, many outputs, or a long way."""
    tiny = st.fixed_dictionaries({"n": st.integers(0, 4), "style": st.sampled_from([0, 1, 2]), "seed": st.integers(0, 9), "tail": st.just(False)})
    count = st.one_of(st.integers(1, most), st.sampled_from([1, 2, 8, 9, 16, 17, 32, 33]).map(lambda x: min(x, most)))
    nodes, edges = [], []
    brk = st.sampled_from(["terminate", "finish", "consume"])

    def launch(op, o=None, e=None):
        return {"t": "launch", "op": op, "sizes": "", "us": 0, "o": o, "e": e, "end": 0}

    def add(n):
        nodes.append(dict(n, name="n%d" % len(nodes)))
        return len(nodes) - 1

    def edge(u, p, v, prio=0):
        edges.append([u, p, v, prio if nodes[v]["t"] == "junction" else 0, draw(brk)])

    # what is in the middle: all inputs go to the first, all outputs come from the last
    mids = draw(st.lists(st.sampled_from(["junction", "junction", "launch", "buffer", "regulator"]), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 25]))))
    ins, outs = draw(count), draw(count)
    if len(mids) > 4:
        ins, outs = min(ins, 3), min(outs, 3)
    sources = []
    for i in range(ins):
        if draw(st.integers(0, 3)) == 0:
            sources.append((add(launch("gen", o=draw(tiny), e=None)), "out"))
        else:
            sources.append((add({"t": "faucet", "how": "file", "data": draw(tiny)}), "out"))
    prev = None
    for i, m in enumerate(mids):
        v = add(launch("cat") if m == "launch" else {"t": "regulator", "marks": None, "watch": []} if m == "regulator" else {"t": m})
        for u, p in ([(prev, "out")] if prev is not None else sources):
            edge(u, p, v, draw(st.integers(-3, 3)))
        prev = v
    for i in range(outs):
        if draw(st.integers(0, 3)) == 0:
            v = add(launch("cat"))
            edge(prev, "out", v)
            d = add({"t": "drain", "to": "file"})
            edge(v, "out", d)
        else:
            edge(prev, "out", add({"t": "drain", "to": "file"}))
    order = draw(st.permutations(range(len(edges)))) if draw(st.booleans()) else range(len(edges))
    return {"nodes": nodes, "edges": [edges[i] for i in order], "rs": draw(st.integers(0, 20)), "fmt": draw(st.sampled_from(["json", "yaml"])), "wide": True}


def seldom_wide(s, one_in=40, **kw):
    w = wide(**kw)
    return st.integers(0, one_in - 1).flatmap(lambda x: w if x == one_in // 2 else s)


def before(edges, v):
    """Everything from which there is a way to v."""
    up, todo = set(), [v]
    while todo:
        x = todo.pop()
        for e in edges:
            if e[2] == x and e[0] not in up:
                up.add(e[0])
                todo.append(e[0])
    return up


# ---------------------------------------------------------------------------------------------- rendering

def connections(case):
    """Groups the edges to chains, and writes each as a JoinString or as objects."""
    r = random.Random(case["rs"])
    nodes, chains = case["nodes"], []
    es = list(case["edges"])
    if case["rs"]:
        r.shuffle(es)
    for e in es:
        # Continue a chain which ends where this edge starts
        c = [x for x in chains if x[-1][2] == e[0]]
        if c and r.random() < 0.7:
            r.choice(c).append(e)
        else:
            chains.append([e])
    keys = list(KEYS) + ["c%d" % i for i in range(len(chains))]
    if case["rs"]:
        r.shuffle(keys)
    conns = {}
    for i, ch in enumerate(chains):
        items = []
        for j, e in enumerate(ch):
            n = nodes[e[0]]
            items.append({"type": n["t"], "name": n["name"], "prio": None if j == 0 else ch[j - 1][3], "brk": None if j == 0 else ch[j - 1][4], "port": e[1]})
        e = ch[-1]
        n = nodes[e[2]]
        items.append({"type": n["t"], "name": n["name"], "prio": e[3], "brk": e[4], "port": None})
        conns[keys[i]] = join_text(items, r) if r.random() < 0.6 and all(IDENT.fullmatch(x["name"]) for x in items) else gen.as_objects(items)
    return conns


def join_text(items, r):
    o = []
    for i, it in enumerate(items):
        if i:
            code = {v: k for k, v in gen.BRK.items()}[it["brk"]]
            o.append(" | " if code == "T" and r.random() < 0.5 else " |%s| " % code)
            if it["prio"]:
                o.append("[%d]" % it["prio"])
        o.append((it["type"] if r.random() < 0.5 else it["type"][0]) + ":" + it["name"])
        if it["port"] is not None and (it["port"] != "out" or r.random() < 0.3):
            o.append("[%s]" % {v: k for k, v in gen.PORTS.items()}[it["port"]])
    return "".join(o)


def own(case):
    """The tokens of every source stream: {(node, port): [tokens]}."""
    r = {}
    for i, n in enumerate(case["nodes"]):
        if n["t"] == "faucet":
            d = n["data"]
            r[(i, "out")] = tokens(2 * i, d["n"], d["style"], d["seed"], d["tail"])
        elif n["t"] == "launch":
            for k, port in (("o", "out"), ("e", "err")):
                d = n[k]
                r[(i, port)] = tokens(2 * i + (k == "e"), d["n"], d["style"], d["seed"], d["tail"]) if d else []
            r[(i, "exit")] = [b"_" if n["end"] == "k" else b"%d" % n["end"]]
    return r


def config(case, ctx, sub=""):
    """The configuration, with the data files written. Returns (config, stdin)."""
    src = own(case)
    cfg = {"connection": connections(case)}
    stdin = b""
    for i, n in enumerate(case["nodes"]):
        if n["t"] == "faucet":
            b = b"".join(src[(i, "out")])
            if n["how"] == "stdin":
                stdin, s = b, "-"
            elif not b and n["data"]["seed"] & 1:
                s = "" if n["data"]["seed"] & 2 else "/dev/null"
            else:
                s = ctx.write("src%d%s" % (i, sub), b)
            cfg.setdefault("faucet", {})[n["name"]] = {"source": s}
        elif n["t"] == "drain":
            cfg.setdefault("drain", {})[n["name"]] = {"destination": n["to"] if n["to"] != "file" else ctx.path("out%d%s" % (i, sub))}
        elif n["t"] == "regulator":
            c = {}
            if n["marks"] is not None:
                c["buffered"] = n["marks"]
            if n["watch"]:
                c["monitored_buffers"] = n["watch"]
            cfg.setdefault("regulator", {})[n["name"]] = c
        elif n["t"] == "launch":
            total = sum(len(b"".join(v)) for v in src.values())
            sz = chunk_sizes(total)(n["sizes"])
            us = n["us"] if total < 3000 else 0
            a = []
            if n["op"] == "leave":
                a += ["rn:%d" % n["n"]] + {"x": [], "ci": ["ci", "sl:20"], "k": ["k:9"]}[n["how"]]
            if n["op"] in ("cat", "cate", "catb"):
                a.append("%s:%s:%d" % (n["op"], sz, us))
            elif n["op"] in ("tac", "dis"):
                a.append(n["op"])
            o, e = b"".join(src[(i, "out")]), b"".join(src[(i, "err")])
            if o and e and n["op"] in ("gen", "dis"):
                a.append("bf:%s:%s:%s:%d" % (ctx.write("o%d%s" % (i, sub), o), ctx.write("e%d%s" % (i, sub), e), sz, us))
            else:
                if o:
                    a.append("of:%s:%s:%d" % (ctx.write("o%d%s" % (i, sub), o), sz, us))
                if e:
                    a.append("ef:%s:%s:%d" % (ctx.write("e%d%s" % (i, sub), e), sz, us))
            a.append("k:9" if n["end"] == "k" else "x:%d" % n["end"])
            cfg.setdefault("launch", {})[n["name"]] = {"cmd": ctx.hp, "arg": a}
    return cfg, stdin


# ---------------------------------------------------------------------------------------------- model

def model(case):
    """For every drain the Counter of source streams it receives (how many times each)."""
    nodes = case["nodes"]
    src = own(case)
    out = {}
    inn = {i: Counter() for i in range(len(nodes))}
    by = {}
    for e in case["edges"]:
        by.setdefault(e[0], []).append(e)
    for i, n in enumerate(nodes):
        if n["t"] == "faucet":
            o = {"out": Counter({(i, "out"): 1})}
        elif n["t"] == "launch":
            o = {p: Counter({(i, p): 1}) for p in ("out", "err", "exit")}
            if n["op"] in ("cat", "tac", "catb"):
                o["out"] = o["out"] + inn[i]
            if n["op"] in ("cate", "catb"):
                o["err"] = o["err"] + inn[i]
        else:
            o = {"out": inn[i]}
        for e in by.get(i, []):
            inn[e[2]] = inn[e[2]] + o[e[1]]
    return {i: inn[i] for i, n in enumerate(nodes) if n["t"] == "drain"}


def streams(case):
    """An identity for what goes along each edge: edges with the same identity carry the same bytes."""
    nodes = case["nodes"]
    ident, indeg = {}, Counter(e[2] for e in case["edges"])
    ine = {}
    for e in case["edges"]:
        ine.setdefault(e[2], []).append(e)
    for i, n in enumerate(nodes):
        same = indeg[i] == 1 and (n["t"] in ("junction", "buffer", "regulator") or n["t"] == "launch" and n["op"] in ("cat", "tac", "catb") and not n["o"])
        own_id = ident[edge_key(ine[i][0])] if same else None
        for e in case["edges"]:
            if e[0] == i:
                if same and (e[1] == "out" or n.get("op") == "catb" and e[1] == "err" and not n["e"]):
                    ident[edge_key(e)] = own_id
                elif same and n.get("op") == "cate" and e[1] == "err":
                    ident[edge_key(e)] = own_id
                else:
                    ident[edge_key(e)] = (i, e[1])
    return ident


def edge_key(e):
    return (e[0], e[1], e[2])


def split(b, what):
    """A stream as tokens: [(source number or None, seq, bytes)]."""
    pos, r = 0, []
    while pos < len(b):
        m = TOKEN.match(b, pos)
        if not m:
            raise Violation("%s: torn or unknown data at byte %d: %s" % (what, pos, short(b[max(0, pos - 60):pos + 120])))
        r.append((None, None, m.group()) if m.group(1) is None else (int(m.group(1)), int(m.group(2)), m.group()))
        pos = m.end()
    return r


def check_part(b, want, src, what):
    """Has this no message, and none more often, than `want` times the streams of the sources?"""
    most = Counter()
    for s, c in want.items():
        for t in src[s]:
            most[t] += c
    got = Counter()
    for s, _, t in split(b, what):
        if s is None:
            # exit statuses are those of programs which got less than they were to
            if t[-1:] != b"\n":
                continue
        elif t not in most and t[:-1] in most and t[-1:] == b"\n":
            got[b"\n"] += 1
            t = t[:-1]
        got[t] += 1
    more = got - most
    if more:
        raise Violation("%s: %d tokens too many (%s)" % (what, sum(more.values()), short(list(more.items())[:4])))


def check_stream(b, want, src, what):
    """Is this an interleaving of `want` times the streams of the sources?"""
    toks = split(b, what)
    expect = Counter()
    for s, c in want.items():
        for t in src[s]:
            expect[t] += c
    got = Counter()
    for s, _, t in toks:
        if s is not None and t not in expect and t[:-1] in expect and t[-1:] == b"\n":
            # what has no line end, followed by an empty line
            got[b"\n"] += 1
            t = t[:-1]
        got[t] += 1
    if got != expect:
        more, less = got - expect, expect - got
        raise Violation("%s: %d tokens too many (%s), %d missing (%s)" % (what, sum(more.values()), short(list(more.items())[:4]), sum(less.values()), short(list(less.items())[:4])))
    seen = {}
    for s, n, t in toks:
        if s is None:
            continue
        c = seen.setdefault(s, Counter())
        if n > 0 and c[n - 1] <= c[n]:
            raise Violation("%s: message %d of source %d before its predecessor" % (what, n, s))
        c[n] += 1


def check_run(case, ctx, r, sub=""):
    """All that can be said of a finished run without failures."""
    if r.rc != 0:
        raise Violation("status %d, stderr %s" % (r.rc, short(r.err)))
    nodes = case["nodes"]
    if r.out and not any(n["t"] == "drain" and n["to"] == "-" for n in nodes):
        raise Violation("stdout without a drain to it: %s" % short(r.out))
    if r.err and not any(n["t"] == "drain" and n["to"] == "_" for n in nodes):
        raise Violation("stderr without a drain to it: %s" % short(r.err))
    return check_drains(case, ctx, {"-": r.out, "_": r.err}, sub)


def check_drains(case, ctx, streams_, sub=""):
    nodes, src = case["nodes"], own(case)
    want = model(case)
    got = {}
    for i, n in enumerate(nodes):
        if n["t"] != "drain":
            continue
        if n["to"] in streams_:
            got[i] = streams_[n["to"]]
        else:
            got[i] = ctx.read("out%d%s" % (i, sub))
            if got[i] is None:
                raise Violation("drain %s: no file" % n["name"])
    for i, b in got.items():
        check_stream(b, want[i], src, "drain %s" % nodes[i]["name"])
    indeg = Counter(e[2] for e in case["edges"])
    ids = streams(case)
    same = {}
    for e in case["edges"]:
        if e[2] in got and indeg[e[2]] == 1:
            k = ids[edge_key(e)]
            if k in same and got[same[k]] != got[e[2]]:
                raise Violation("drains %s and %s have the same input, but received %s and %s" % (
                    nodes[same[k]]["name"], nodes[e[2]]["name"], short(got[same[k]]), short(got[e[2]])))
            same[k] = e[2]
    return got


def note(case, ctx):
    ind, outd = Counter(e[2] for e in case["edges"]), Counter((e[0], e[1]) for e in case["edges"])
    l = set()
    if case.get("wide"):
        l.add("%s inputs, outputs or components in a row" % ("few" if len(case["nodes"]) < 12 else "more than nine" if len(case["nodes"]) < 30 else "dozens of"))
    for i, n in enumerate(case["nodes"]):
        if ind[i] > 1:
            l.add("fan-in at " + n["t"])
    for (i, p), c in outd.items():
        if c > 1:
            l.add("fan-out at %s %s" % (case["nodes"][i]["t"], p))
    total = sum(len(x) for v in own(case).values() for x in v)
    l.add("data %s" % ("none" if not total else "< 1 K" if total < 1000 else "< 64 K" if total < 65536 else "64 K and more"))
    ctx.note(*l)
    return l
