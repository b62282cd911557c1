"""Anything that is not a valid configuration is refused cleanly."""
import json, os, re
from hypothesis import strategies as st
from . import confgen as cg, gen
from .fw import Violation, known_findings, short

ID = "C19"
EXAMPLES = {"quick": 22000, "thorough": 300000}
RULE = ("a case is a document (arbitrary bytes, a damaged valid document, or a valid network with exactly one thing wrong) and commands "
        "to run on it, or an arbitrary command line; non-trivial: the document was refused, or was a damaged one and accepted")
ASSUMPTIONS = ["process is only run on documents which are certainly, or according to config lint, to be refused, and on the valid "
               "networks they are made from"]

# ---- a valid network of recorders

@st.composite
def base(draw):
    conns, cfg = {}, {"faucet": {}, "drain": {}, "launch": {}, "regulator": {}}
    n = draw(st.integers(1, 3))
    c = [0]

    def nm():
        c[0] += 1
        return "n%02d" % c[0]
    for k in range(n):
        mids = draw(st.lists(st.sampled_from(["junction", "buffer", "regulator", "launch", "launch"]), max_size=4))
        seq = [("faucet", nm())] + [(m, nm()) for m in mids] + [("drain", nm())]
        if draw(st.integers(0, 3)) == 0 and mids:
            seq = seq[:1] + [("launch", nm())] + seq[1:]
        items = [{"type": t, "name": x, "prio": None if i == 0 else 0, "brk": None if i == 0 else draw(st.sampled_from(list(gen.BRK.values()))),
                  "port": None if i == len(seq) - 1 else "out"} for i, (t, x) in enumerate(seq)]
        for t, x in seq:
            if t == "faucet":
                cfg["faucet"][x] = {"source": draw(st.sampled_from(["SRC", "", "/dev/null"]))}
            elif t == "drain":
                cfg["drain"][x] = {"destination": draw(st.sampled_from(["OLD", "NEW", ""])) + x}
                if len(cfg["drain"][x]["destination"]) < 5:
                    cfg["drain"][x]["destination"] = ""
            elif t == "launch":
                cfg["launch"][x] = {"cmd": "REC" + x, "arg": draw(st.lists(st.sampled_from(["a", "", "x y"]), max_size=2))}
            elif t == "regulator":
                cfg["regulator"][x] = {"buffered": [1, 3], "monitored_buffers": [y for u, y in seq if u == "buffer"]} if draw(st.booleans()) else {}
        conns["c%d" % k] = items
    form = {k: draw(st.booleans()) for k in conns}
    # Which of these matters
    return cfg, conns, form


# ---- one thing wrong: each takes (draw, cfg, connection items, objects?) and returns False when it does not apply

WRONG = {}


def wrong(f):
    WRONG[f.__name__] = f
    return f


def pick(draw, conns, what):
    l = [(k, i) for k, v in conns.items() for i, x in enumerate(v) if what(i, x, len(v))]
    return draw(st.sampled_from(l)) if l else None


@wrong
def priority(draw, cfg, conns, form, doc):
    p = pick(draw, conns, lambda i, x, n: i > 0 and x["type"] != "junction")
    conns[p[0]][p[1]]["prio"] = draw(st.sampled_from([1, -1, 5, 2**62, -2**63]))


@wrong
def port(draw, cfg, conns, form, doc):
    p = pick(draw, conns, lambda i, x, n: i < n - 1 and x["type"] in ("faucet", "regulator"))
    conns[p[0]][p[1]]["port"] = draw(st.sampled_from(["err", "exit"]))


@wrong
def drain_as_source(draw, cfg, conns, form, doc):
    p = pick(draw, conns, lambda i, x, n: i > 0)
    k, i = p
    cfg["drain"]["w"] = {"destination": "NEWw"}
    conns[k].insert(i, {"type": "drain", "name": "w", "prio": 0, "brk": "terminate", "port": "out"})


@wrong
def drain_first(draw, cfg, conns, form, doc):
    cfg["drain"]["w"] = {"destination": "NEWw"}
    cfg["drain"]["v"] = {"destination": "NEWv"}
    conns["w"] = [{"type": "drain", "name": "w", "prio": None, "brk": None, "port": "out"}, {"type": "drain", "name": "v", "prio": 0, "brk": "terminate", "port": None}]
    form["w"] = draw(st.booleans())


@wrong
def faucet_as_destination(draw, cfg, conns, form, doc):
    k, i = pick(draw, conns, lambda i, x, n: i > 0)
    cfg["faucet"]["w"] = {"source": draw(st.sampled_from(["SRC", "", "-"]))}
    if draw(st.booleans()) and i == len(conns[k]) - 1:
        conns[k][i - 1]["port"] = "out"
        conns[k][i] = {"type": "faucet", "name": "w", "prio": 0, "brk": "finish", "port": None}
    else:
        conns[k].insert(i, {"type": "faucet", "name": "w", "prio": 0, "brk": "finish", "port": "out"})


@wrong
def no_settings(draw, cfg, conns, form, doc):
    k, i = pick(draw, conns, lambda i, x, n: x["type"] in cfg)
    del cfg[conns[k][i]["type"]][conns[k][i]["name"]]


@wrong
def no_command(draw, cfg, conns, form, doc):
    p = pick(draw, conns, lambda i, x, n: x["type"] == "launch")
    if p is None:
        return False
    c = cfg["launch"][conns[p[0]][p[1]]["name"]]
    if draw(st.booleans()):
        c["cmd"] = None
    else:
        del c["cmd"]


@wrong
def unknown_buffer(draw, cfg, conns, form, doc):
    p = pick(draw, conns, lambda i, x, n: x["type"] == "regulator")
    if p is None:
        return False
    c = cfg["regulator"][conns[p[0]][p[1]]["name"]]
    c.setdefault("monitored_buffers", []).insert(0, draw(st.sampled_from(["nosuch", "", "n1"])))


BAD_JOIN = ["f:n1", "f:n1 |", "| d:n2", "f:n1 || d:n2", "f:n1 |X| d:n2", "f:n1 | d:n 2", "f:n1 |  | d:n2", "f:n1 > d:n2", "f:n1 | d", "f:n1 | [x]d:n2", "f:n1 | [1.5]d:n2",
            "f:n1 | []d:n2", "f:n1 | [-]d:n2", "f:n1 | [9223372036854775808]d:n2", "f:n1[Q] | d:n2", "f:n1[] | d:n2", "[1]f:n1 | d:n2", "f:n1 | d:n2[O]", "f:n1\n| d:n2",
            "f:n1 |T d:n2", "F:n1 | d:n2", "f:n-1 | d:n2", "f:n1,d:n2", " ", "\n", "f:n1 | d:n2;", "tap:n1 | d:n2", "f:n1 |TF| d:n2", "f:n1 |t| d:n2", "f:\u00e91 | d:n2"]


@wrong
def bad_join(draw, cfg, conns, form, doc):
    if draw(st.booleans()):
        s = draw(st.sampled_from(BAD_JOIN))
    else:
        s = draw(gen.damaged_join().filter(lambda s: gen.parse_join(s) is None))
    doc["connection"]["bad"] = s


@wrong
def no_chain(draw, cfg, conns, form, doc):
    k = draw(st.sampled_from(sorted(conns)))
    o = gen.as_objects(conns[k])
    w = draw(st.integers(0, 4))
    if w == 0:
        o = [o[draw(st.integers(0, len(o) - 1))]]
    elif w == 1:
        o = o[::-1]
    elif w == 2:
        o = o + o
    elif w == 3 and len(o) > 2:
        i = draw(st.integers(1, len(o) - 2))
        del o[i]["output_port"]
    else:
        i = draw(st.integers(1, len(o) - 1))
        o[i].pop("priority")
        o[i].pop("breakable")
    doc["connection"][k] = o


@wrong
def bad_object(draw, cfg, conns, form, doc):
    k = draw(st.sampled_from(sorted(conns)))
    o = gen.as_objects(conns[k])
    i = draw(st.integers(1, len(o) - 1))
    f, v = draw(st.sampled_from([("component_type", "tap"), ("component_type", "Faucet"), ("component_type", None), ("component_type", 1), ("component_name", None),
                                 ("component_name", 5), ("priority", "x"), ("priority", None), ("priority", 1.5), ("priority", []), ("priority", 2**64),
                                 ("breakable", "T"), ("breakable", "Terminate"), ("breakable", 0), ("breakable", None),
                                 ("component_name", "DEL"), ("component_type", "DEL")]))
    if v == "DEL":
        del o[i][f]
    else:
        o[i][f] = v
    doc["connection"][k] = o


@wrong
def wrong_type(draw, cfg, conns, form, doc):
    other = draw(st.sampled_from([5, "x", True, None, 1.5, [], ["a", "b", "c", "d", "e"], [[]]]))
    w = draw(st.integers(0, 8))
    if w == 0:
        doc[draw(st.sampled_from(["faucet", "drain", "launch", "regulator", "connection"]))] = other
        if other is None and False:
            return False
    elif w == 1:
        doc["connection"]["bad"] = draw(st.sampled_from([5, True, None, {}, {"a": 1}, [5], ["f:a | d:b"], [[]], [None]]))
    elif w == 2:
        cfg["faucet"]["bad"] = draw(st.sampled_from([{}, None, "x", {"source": None}, {"source": 5}, {"source": ["x"]}, {"source": {}}, {"Source": "x"}, 7]))
    elif w == 3:
        cfg["drain"]["bad"] = draw(st.sampled_from([None, "x", {"destination": None}, {"destination": 5}, {"destination": ["x"]}, 7]))
    elif w == 4:
        cfg["regulator"]["bad"] = draw(st.sampled_from([None, "x", {"buffered": 5}, {"buffered": [1]}, {"buffered": []}, {"buffered": [-1, 2]}, {"buffered": [1.5, 2]},
                                                        {"buffered": ["1", "2"]}, {"buffered": {"min": 1}}, {"buffered": "1 2"}, {"monitored_buffers": "x"},
                                                        {"monitored_buffers": None}, {"monitored_buffers": {"x": 1}}, {"monitored_buffers": [[]]}]))
    elif w == 5:
        cfg["launch"]["bad"] = draw(st.sampled_from([None, "x", {"cmd": 5}, {"cmd": ["ls"]}, {"cmd": "true", "arg": "x"}, {"cmd": "true", "arg": {"a": "b"}}, {"cmd": "true", "arg": None},
                                                     {"cmd": "true", "arg": [None]}, {"cmd": "true", "env": ["A=1"]}, {"cmd": "true", "env": {"A": None}},
                                                     {"cmd": "true", "env": {"A": ["x"]}}, {"cmd": "true", "env": "A=1"}, {"cmd": "true", "path": ["x"]}, {"cmd": "true", "path": {}},
                                                     {"cmd": {}}, {"cmd": "true", "env": None}]))
    elif w == 6:
        doc["TOP"] = draw(st.sampled_from([5, "x", None, True, ["a"], [[]], [5], 1.5]))
    elif w == 7:
        doc["TRUNC"] = draw(st.integers(1, 10**6))
    else:
        doc["INVALID"] = draw(st.sampled_from([b"\xff", b"\xc3\x28", b"\x00", b"\xed\xa0\x80", b"\xf8", b"}", b"]", b"\t:"])), draw(st.integers(0, 3))


@st.composite
def bad_network(draw):
    cfg, conns, form = draw(base())
    doc = {"connection": {}}
    names = sorted(WRONG)
    what = draw(st.sampled_from(names + ["valid", "valid"]))
    if what != "valid":
        if WRONG[what](draw, cfg, conns, form, doc) is False:
            what = "valid"
    over = doc["connection"]
    full = {}
    for k, v in conns.items():
        full[k] = draw(gen.render_join(v)) if form[k] else gen.as_objects(v)
    if isinstance(over, dict):
        full.update(over)
    else:
        full = over
    final = dict(cfg, connection=full)
    extra = {k: v for k, v in doc.items() if k != "connection"}
    # In YAML a scalar of another type is a string where one is due
    fmt = draw(st.sampled_from(["json", "yaml"])) if what not in ("wrong_type", "bad_object") else "json"
    for k in ("faucet", "drain", "launch", "regulator"):
        if k in extra:
            final[k] = extra[k]
    if "TOP" in extra:
        final = extra["TOP"]
    text = cg.text_of(final, fmt, draw(st.integers(0, 3))).encode()
    if "TRUNC" in extra:
        # JSON only: nearly every part of a YAML document is one too
        fmt = "json"
        text = cg.text_of(final, fmt).encode()
        text = text[:extra["TRUNC"] % len(text)]
    if "INVALID" in extra:
        b, where = extra["INVALID"]
        if fmt == "json" or b[0] < 0x80:
            fmt = "json"
            text = cg.text_of(final, fmt).encode()
        at = [0, len(text)]
        if b in (b"\xff", b"\xf8"):
            # not UTF-8 wherever it is, so also in names and values
            at = [0, len(text)] + [m.start() + 1 for m in re.finditer(rb'[a-z0-9][a-z0-9"]', text)]
            where = draw(st.integers(0, len(at) - 1))
        at = at[where % len(at)]
        text = text[:at] + b + text[at:]
    return {"kind": "network", "what": what, "text": text, "fmt": fmt, "stdin": draw(st.booleans()),
            "other": draw(st.sampled_from(["lint", "manipulate", "graph", "edit"]))}


# ---- documents

@st.composite
def damage(draw, b):
    b = bytearray(b)
    for _ in range(draw(st.integers(1, 4))):
        if not b:
            break
        i = draw(st.integers(0, len(b) - 1))
        op = draw(st.integers(0, 5))
        if op == 0:
            del b[i:i + draw(st.integers(1, 8))]
        elif op == 1:
            b[i:i] = draw(st.sampled_from([b"\xff", b"\xc3", b"{", b"}", b"[", b"]", b":", b",", b'"', b"'", b"\n", b" ", b"-", b"&a ", b"*a", b"!!str ", b"<<: ", b"#", b"|", b">", b"\t", b"\x00",
                                           b"\xff", b"null", b"~", b"1e999", b"\\", b"\\u0000", b"\\ud800", b"---\n", b"? ", b"%YAML 1.2\n", b"@", b"0x", b".nan"]))
        elif op == 2:
            b[i] = draw(st.integers(0, 255))
        elif op == 3:
            j = draw(st.integers(0, len(b) - 1))
            i, j = min(i, j), max(i, j)
            b[i:i] = b[i:j]
        elif op == 4:
            b = b[:i]
        else:
            j = draw(st.integers(0, len(b) - 1))
            i, j = min(i, j), max(i, j)
            k = draw(st.integers(0, len(b)))
            b[k:k] = b[i:min(j, i + 30)]
    return bytes(b)


special = st.one_of(
    st.builds(lambda c, n: c * n, st.sampled_from([b"[", b"{", b'{"a":', b"- ", b"[[", b"? ", b"&a [", b'{"connection":{"a":[', b"a: {", b'"', b"(", b"\xff"]), st.sampled_from([1, 50, 127, 128, 129, 1000, 20000])),
    st.just(b"a: &a [x,x,x,x,x,x,x,x,x]\n" + b"".join(b"%c: &%c [*%c,*%c,*%c,*%c,*%c,*%c,*%c,*%c,*%c]\n" % ((98 + i, 98 + i) + (97 + i,) * 9) for i in range(9))),
    st.just(b"faucet: &x {a: *x}\n"), st.just(b"connection: {k: &s [*s]}\n"), st.just(b"\xef\xbb\xbf{}"), st.just(b"\xff\xfe{\x00}\x00"), st.just(b"{}{}"),
    st.just(b"--- {}\n--- {}\n"), st.just(b"..."), st.just(b"---"), st.just(b"%TAG ! x\n---\n{}"), st.just(b"launch: {a: {cmd: x, arg: [" + b"x," * 3000 + b"]}}"))

structured = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**65, 2**65), cg.wild_text, st.sampled_from(["f:a | d:b", "faucet", "drain", "out", "terminate"])),
                          lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.one_of(st.sampled_from(
                              ["faucet", "drain", "launch", "regulator", "connection", "source", "destination", "cmd", "env", "arg", "path", "buffered", "monitored_buffers",
                               "component_type", "component_name", "priority", "breakable", "output_port", "connection_set", "a"]), cg.wild_text), c, max_size=4)), max_leaves=12)


@st.composite
def document(draw):
    k = draw(st.integers(0, 9))
    fmt = draw(st.sampled_from(["json", "yaml"]))
    if k == 0:
        t = draw(st.binary(max_size=60))
    elif k == 1:
        t = draw(special)
    elif k == 2:
        t = draw(st.text(st.characters(blacklist_categories=("Cs",)), max_size=60)).encode()
    elif k == 3:
        t = cg.text_of(draw(structured), fmt).encode()
    else:
        # a whole configuration, where one value has been replaced, or damaged as bytes
        c = draw(cg.config(names=st.sampled_from(["a", "b", "c"])))
        if k < 6:
            c = draw(replaced(c))
        t = cg.text_of(c, fmt, draw(st.integers(0, 3))).encode()
        if k >= 6:
            t = draw(damage(t))
    cmds = draw(st.lists(st.sampled_from(["lint", "manipulate", "graph", "graph -d", "edit", "process"]), min_size=1, max_size=3, unique=True))
    return {"kind": "document", "text": t, "fmt": draw(st.sampled_from([fmt, fmt, fmt, "json", "yaml"])), "stdin": draw(st.booleans()), "cmds": cmds}


@st.composite
def replaced(draw, c):
    paths = []

    def walk(v, p):
        paths.append(p)
        if isinstance(v, dict):
            for k in v:
                walk(v[k], p + [k])
        elif isinstance(v, list):
            for i, x in enumerate(v):
                walk(x, p + [i])
    walk(c, [])
    c = json.loads(json.dumps(c))
    p = draw(st.sampled_from(paths))
    v = draw(structured)
    if not p:
        return v
    o = c
    for x in p[:-1]:
        o = o[x]
    if draw(st.integers(0, 3)) == 0:
        del o[p[-1]]
    else:
        o[p[-1]] = v
    return c


word = st.one_of(st.sampled_from(["process", "graph", "config", "lint", "manipulate", "faucet", "drain", "regulator", "connection", "launch", "source", "destination", "watermark",
                                  "join", "command", "args", "env", "path", "--id", "a", "--config", "--format", "json", "yaml", "--", "-", "1", "f:a | d:b", "A=1", "--help", "-h", "-V", "--id=x",
                                  "--format=json", "--config=-", "--config=/", "--config=/nonexistent", "--config=UNREADABLE", "empty", "del", "help", "-d", "-l", "--legend-border", "", "-x", "--no"]),
                 cg.arg_text)


@st.composite
def command_line(draw):
    a = draw(st.lists(word, max_size=8))
    raw = draw(st.integers(0, 9)) == 0
    if draw(st.booleans()):
        pre = draw(st.sampled_from([["config", "--format", "json"], ["config", "--format", "json", "launch", "--id", "a"], ["graph", "--format", "json"], ["config", "--config", "/nonexistent"],
                                    ["process", "--config", "/nonexistent"], ["process", "--config=UNREADABLE"], ["config", "--config=UNREADABLE", "lint"], ["graph", "--config=/"]]))
        a = pre + a
    return {"kind": "line", "args": [x.encode("utf8", "surrogatepass") + (b"\xff" if raw and i == len(a) - 1 else b"") for i, x in enumerate(a)]}


def strategy(tier):
    return st.one_of(bad_network(), bad_network(), document(), document(), document(), command_line())


# ---- running

def sane(what, r):
    if r.rc not in (0, 1):
        raise Violation("%s: status %d" % (what, r.rc))
    if r.rc == 1 and r.out:
        raise Violation("%s: status 1 but printed %s" % (what, short(r.out)))
    if r.rc == 1 and not r.err.strip():
        raise Violation("%s: status 1 without a report" % what)


def command(name):
    if name == "edit":
        return ["config", "faucet", "--id", "zz", "source", "x"]
    return {"lint": ["config", "lint"], "manipulate": ["config", "manipulate"]}.get(name, name.split())


def argv(name, fmt, config):
    c = command(name)
    return c[:1] + ["--format", fmt] + (["--config", config] if config else []) + c[1:]


NESTED = "yaml-block-nesting-2000"


def run(case, ctx):
    try:
        return run_any(case, ctx)
    except Violation as v:
        # The reader of YAML (yaml-rust) overflows the stack; nothing else about such a document is excused
        if ("overflowed its stack" in str(v) and case.get("fmt") == "yaml" and re.search(rb"(?:[-?] ){2000}", case["text"])
                and NESTED in known_findings(ID)):
            ctx.note("known finding: " + NESTED)
            return False
        raise


def run_any(case, ctx):
    if case["kind"] == "line":
        u = ctx.write("unreadable", b"{}")
        os.chmod(u, 0)
        a = [x.replace(b"UNREADABLE", os.fsencode(u)) for x in case["args"]]
        r = ctx.pa2run(a, stdin=b"{}")
        sane("command line %s" % a, r)
        ctx.note("command line")
        return r.rc == 1
    if case["kind"] == "document":
        return run_document(case, ctx)
    return run_network(case, ctx)


def parses(b, fmt):
    try:
        t = b.decode()
    except UnicodeDecodeError:
        return False
    if fmt == "json":
        try:
            json.loads(t, parse_int=float)
        except RecursionError:
            pass
        except ValueError:
            return False
    return True


def run_document(case, ctx):
    path = None if case["stdin"] else ctx.write("doc", case["text"])
    i = case["text"] if case["stdin"] else b""
    before = ctx.watch_files(None)
    e = ctx.pa2run(argv("edit", case["fmt"], path), stdin=i)
    sane("config faucet source", e)
    ctx.note("document " + ("refused" if e.rc else "accepted"))
    l = ctx.pa2run(argv("lint", case["fmt"], path), stdin=i)
    sane("config lint", l)
    if e.rc and not l.rc:
        raise Violation("lint accepts what an edit refuses: %s" % short(e.err))
    if e.rc == 0:
        again = ctx.pa2run(argv("edit", "json", None), stdin=e.out)
        if again.rc or json.loads(again.out) != json.loads(e.out):
            raise Violation("printed %s, which is not read back the same: %s" % (short(e.out), short(again.out or again.err)))
    if not e.rc and not parses(case["text"], case["fmt"]):
        raise Violation("accepted a document which is not %s" % case["fmt"])
    codes = set(re.findall(rb"PA: Error: (\d{4}): ", l.err))
    for c in case["cmds"]:
        refuse = e.rc or b"0003" in codes or (c != "manipulate" and codes - {b"0001"})
        if c == "process" and not refuse:
            continue
        if c == "edit":
            continue
        r = ctx.pa2run(argv(c, case["fmt"], path), stdin=i)
        sane(c, r)
        if refuse and c != "lint" and r.rc != 1:
            raise Violation("%s accepts what lint refuses: %s" % (c, short(l.err)))
        if not refuse and c in ("manipulate", "graph", "graph -d") and r.rc:
            raise Violation("%s refuses what lint accepts: %s" % (c, short(r.err)))
    now = [f for f in ctx.watch_files(None) if not f[0].startswith(".")]
    if now != [f for f in before if not f[0].startswith(".")]:
        raise Violation("files changed: %s to %s" % (before, now))
    return bool(e.rc or l.rc) or case["cmds"] != []


def run_network(case, ctx):
    t = case["text"]
    files = {}
    src = ctx.write("src", b"hello\nworld")
    for i in range(1, 25):
        n = "n%02d" % i
        if b"OLD" + n.encode() in t:
            ctx.write("OLD" + n, b"keep")
            files["OLD" + n] = b"keep"
        if b"REC" + n.encode() in t:
            os.symlink(ctx.hp, ctx.path("rec_" + n))
    d = os.fsencode(ctx.dir) + b"/"
    # (the places are in the document as words of their own, so replacing them does not change what is wrong with it)
    for w, x in ((b"REC", b"rec_"), (b"OLD", b"OLD"), (b"NEW", b"NEW"), (b"SRC", b"src")):
        t = t.replace(b'"' + w, b'"' + d + x)
    path = None if case["stdin"] else ctx.write("doc", t)
    i = t if case["stdin"] else b""
    o = ctx.pa2run(argv(case["other"], case["fmt"], path), stdin=i)
    sane(case["other"], o)
    r = ctx.pa2run(argv("process", case["fmt"], path), stdin=i)
    sane("process", r)
    ctx.note("network " + case["what"])
    recs = [f for f in os.listdir(ctx.dir) if f.endswith(".rec")]
    new = [f for f in os.listdir(ctx.dir) if f.startswith("NEW")]
    if case["what"] == "valid":
        if r.rc != 0 or r.err:
            raise Violation("a valid network: status %d, %s" % (r.rc, short(r.err)))
        launches = sum(1 for f in os.listdir(ctx.dir) if f.startswith("rec_") and not f.endswith(".rec"))
        if len(recs) != launches:
            raise Violation("%d of %d programs ran" % (len(recs), launches))
        return False
    if r.rc != 1:
        raise Violation("process of a network with %s wrong: status %d, stdout %s" % (case["what"], r.rc, short(r.out)))
    if recs:
        raise Violation("process of a network with %s wrong started %s; %s" % (case["what"], recs, short(r.err)))
    if new:
        raise Violation("process of a network with %s wrong created %s; %s" % (case["what"], new, short(r.err)))
    for f, c in files.items():
        if ctx.read(f) != c:
            raise Violation("process of a network with %s wrong changed %s to %s" % (case["what"], f, short(ctx.read(f))))
    return True
