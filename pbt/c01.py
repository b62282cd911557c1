"""Messages end at line ends, however the bytes arrive."""
import json, os, subprocess
from hypothesis import strategies as st
from . import data

from .fw import Violation, short

ID = "C01"
DRIVER = True
WORKERS = 16
EXAMPLES = {"quick": 8000, "thorough": 150000}
RULE = ("a case is 1 to 3 sources (a file, a named pipe, standard input, a program's stdout, stderr or both at once), each with contents and "
        "the sizes and pauses with which they are written; an observer tells the messages; non-trivial: a source has two messages or more, "
        "or one of more than 255 bytes, or without a line end")
ASSUMPTIONS = ["the observer is told the messages as they were passed on (C21)"]

sizes = st.one_of(st.sampled_from(["", "", "1", "1", "2", "3,7", "254", "255", "256", "254,1", "255,1", "100,1,1000", "4096"]),
                  st.lists(st.integers(1, 300), min_size=1, max_size=4).map(lambda l: ",".join(map(str, l))))
us = st.sampled_from([0, 0, 20, 100, 1000])


@st.composite
def cr_spec(draw):
    """Line ends, some of two bytes, close to where a read of 255 bytes ends."""
    parts = draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 2, 251, 252, 253, 254, 255, 256, 508, 509, 510]),
                                    st.sampled_from([b"\r\n", b"\r\n", b"\n", b"\r", b"\r\r\n", b"\n\n", b"\n\r", b""]),
                                    st.sampled_from([b"a", b"\0", b"\xc3", b"\r"])), min_size=1, max_size=6))
    return {"style": "literal", "b": b"".join(c * n + e for n, e, c in parts)}


spec = data.seldom(data.huge, st.one_of(data.spec(), cr_spec(), cr_spec()), 60)


def source():
    return st.fixed_dictionaries({"t": st.sampled_from(["file", "fifo", "stdin", "out", "err", "both"]), "data": spec, "data2": spec, "sizes": sizes, "us": us})


def strategy(tier):
    return st.lists(source(), min_size=1, max_size=3)


def run(case, ctx):
    cfg = {"drain": {}, "connection": {}}
    want = {}
    feeders = []
    stdin = b""
    has_stdin = False
    nontrivial = False

    def drain(key, i, b):
        cfg["drain"]["d" + key] = {"destination": ctx.path("out" + key)}
        want["d" + key] = b

    try:
        for i, s in enumerate(case):
            b = data.make(s["data"], most=600)
            t = s["t"]
            if t == "stdin" and has_stdin:
                t = "fifo"
            f = ctx.write("data%d" % i, b)
            sz, us_ = pace(len(b), s["sizes"], s["us"])
            i = str(i)
            if t in ("file", "fifo", "stdin"):
                p = f
                if t == "fifo":
                    p = ctx.path("fifo" + i)
                    os.mkfifo(p)
                    feeders.append((p, [ctx.hp, "of:%s:%s:%d" % (f, sz, us_)]))
                elif t == "stdin":
                    p, has_stdin = "-", True
                    feeders.append((None, [ctx.hp, "of:%s:%s:%d" % (f, sz, us_)]))
                cfg.setdefault("faucet", {})["f" + i] = {"source": p}
                cfg["connection"]["c" + i] = "f:f%s | d:d%s" % (i, i)
                drain(i, i, b)
            elif t in ("out", "err"):
                cfg.setdefault("launch", {})["l" + i] = {"cmd": ctx.hp, "arg": ["%s:%s:%s:%d" % ("of" if t == "out" else "ef", f, sz, us_)]}
                cfg["connection"]["c" + i] = "l:l%s%s | d:d%s" % (i, "[E]" if t == "err" else "", i)
                drain(i, i, b)
            else:
                b2 = data.make(s["data2"], most=600)
                f2 = ctx.write("data2" + i, b2)
                sz, us_ = pace(len(b) + len(b2), s["sizes"], s["us"])
                cfg.setdefault("launch", {})["l" + i] = {"cmd": ctx.hp, "arg": ["bf:%s:%s:%s:%d" % (f, f2, sz, us_)]}
                cfg["connection"]["c" + i] = "l:l%s | d:d%s" % (i, i)
                cfg["connection"]["e" + i] = "l:l%s[E] | d:de%s" % (i, i)
                drain(i, i, b)
                drain("e" + i, i, b2)
                nontrivial |= interesting(b2)
            nontrivial |= interesting(b)
            ctx.note("source " + t, *kinds(b))
        req = {"cmd": "net", "config": json.dumps(cfg), "spy": 0}
        procs = []
        if not feeders:
            r = ctx.driver(req)
        else:
            ctx.write("request", json.dumps(req))
            rd, wr = os.pipe()
            p = None
            try:
                p = ctx.spawn([ctx.path("request"), ctx.path("answer")], stdin=rd, exe=ctx.driver_bin)
                for path, cmd in feeders:
                    if path is None:
                        procs.append(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=wr, stderr=subprocess.DEVNULL))
                    else:
                        # opening blocks until the faucet opens the other end
                        procs.append(subprocess.Popen(["/bin/sh", "-c", 'exec "$@" > "$0"', path] + cmd, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
                os.close(wr)
                wr = -1
                res = ctx.wait(p)
            finally:
                os.close(rd)
                if wr >= 0:
                    os.close(wr)
                for x in procs:
                    x.kill()
                    x.wait()
            if res.rc != 0:
                raise Violation("status %d, %s" % (res.rc, short(res.err)))
            r = json.loads(ctx.read("answer"))
    finally:
        pass
    if "ok" not in r:
        raise Violation("the run failed: %s" % short(json.dumps({k: v for k, v in r.items() if k != "spy"})))
    got = {d: [] for d in want}
    for m in r["spy"]:
        if m["dst"][1] in got and m["msg"] not in ("finished", "skipped"):
            got[m["dst"][1]].append(bytes.fromhex(m["msg"]))
    for d, b in want.items():
        w = data.messages(b)
        if got[d] != w:
            k = next((k for k, (x, y) in enumerate(zip(got[d], w)) if x != y), min(len(got[d]), len(w)))
            raise Violation("%s: %d messages, expected %d; number %d is %s instead of %s" % (
                d, len(got[d]), len(w), k, short(got[d][k:k + 1]), short(w[k:k + 1])))
        o = ctx.read("out" + d[1:])
        if o != b:
            raise Violation("%s: content is %s instead of %s" % (d, short(o), short(b)))
    return nontrivial


def pace(n, sz, us_):
    """As calm(), for any list of sizes."""
    l = [int(x) for x in sz.split(",") if x] or [60000]
    mean = sum(l) / len(l)
    if n > 60000:
        return "65536,4096,1" if mean < 5000 else sz, 0
    steps = n / mean + 1
    if steps > 3000:
        sz, steps = "255,3", n / 129 + 1
    while us_ and steps * (us_ + 60) > 300000:
        us_ //= 4
    return sz, us_


def interesting(b):
    m = data.messages(b)
    return len(m) > 1 or len(b) > 255 or bool(b) and not b.endswith(b"\n")


def kinds(b):
    o = ["tail" if b and not b.endswith(b"\n") else "no tail"]
    m = data.messages(b)
    if any(len(x) > 255 for x in m):
        o.append("message of more than 255 bytes")
    if any(x.endswith(b"\r\n") for x in m):
        o.append("CR LF")
    off = 0
    for x in m:
        off += len(x)
        if x.endswith(b"\r\n") and off % 255 in (0, 1):
            o.append("CR LF at or across a 255 byte boundary")
    if b"\0" in b or b"\xff" in b:
        o.append("binary")
    return o
