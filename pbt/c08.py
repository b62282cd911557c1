"""Buffers: never push back, keep order, report their size."""
import os
from hypothesis import strategies as st
from . import confgen as cg, gate
from .fw import Inconclusive, Violation, short

ID = "C08"
DRIVER = True
WORKERS = 16
EXAMPLES = {"quick": 6000, "thorough": 200000}
RULE = ("a case is a history of arrivals, receipts, the end of the input and waiting at a buffer with up to 3 watching it, or (every 40th) a "
        "network in which a consumer behind a buffer waits until everything before it has been taken; non-trivial: more messages than fit in "
        "the channels were held at some time")
ASSUMPTIONS = ["those watching read what they are told (with pauses)", "an output with capacity S holds S messages, and at most two more are on their way to it"]


@st.composite
def script_case(draw, tier):
    size = draw(st.sampled_from([1, 1, 2, 3, 8, 8, 20]))
    mons = draw(st.sampled_from([0, 1, 1, 1, 2, 3]))
    deep = draw(st.sampled_from([20000, 20000, 33000, 66000] if tier == "thorough" else [18000, 18000, 34000])) if draw(st.integers(0, 399)) == 57 else 0
    at = draw(st.integers(0, 1)) if deep else None
    burst = st.one_of(st.integers(0, 3), st.integers(1, 30), st.sampled_from([7, 8, 9, 16, 17, 18, 100]), st.integers(100, 400) if draw(st.integers(0, 5)) == 0 else st.just(9),
                      st.just(3000) if draw(st.integers(0, 40)) == 0 else st.just(10))
    script, n, got, most = [], 0, 0, 0
    for j in range(draw(st.integers(1, 7)) + (1 if deep else 0)):
        if j == at:
            k = deep
            script.append(["sendn", 0, n, k])
        else:
            k = draw(burst)
            script += [["send", 0, n + i] for i in range(k)]
        n += k
        most = max(most, n - got)
        w = draw(st.integers(0, 9))
        if w < 3 or k > 10000:
            script.append(["accept_all"])
        elif w < 5 and mons:
            script.append(["await_size", max(0, n - got - size - 2), n - got])
        elif w == 5:
            script.append(["settle", draw(st.sampled_from([1, 4, 15]))])
        if n > got:
            r = draw(st.one_of(st.integers(0, n - got), st.just(n - got), st.just(0), st.integers(0, min(10, n - got)))) if n - got < 10000 else draw(st.integers(0, 2000))
            script += [["recv"]] * r
            got += r
            if r and mons and draw(st.integers(0, 4)) == 0:
                script.append(["await_size", max(0, n - got - size - 2), n - got])
    if draw(st.integers(0, 2)) == 0:
        # closed before it is emptied; the end is counted as well
        script.append(["close", 0])
        if draw(st.booleans()) and mons:
            script.append(["await_size", max(0, n - got - size - 2), n - got + 1])
    return {"how": "script", "size": size, "monitors": mons, "us": draw(st.sampled_from([0, 0, 0, 50, 300])) if n < 600 else 0,
            "brk": draw(st.sampled_from("TFC")), "script": script, "most": most}


@st.composite
def net_case(draw):
    return {"how": "net", "source": draw(st.sampled_from(["launch", "launch", "faucet", "both"])),
            "lines": draw(st.sampled_from([300, 2000, 9000])), "width": draw(st.sampled_from([0, 30, 1000])),
            "mids": draw(st.lists(st.sampled_from(["b", "b", "j", "r", "l"]), max_size=3)),
            "pos": draw(st.integers(0, 3)), "reg": draw(st.booleans()), "fork": draw(st.booleans()), "first": draw(st.sampled_from([0, 0, 5])),
            "fmt": draw(st.sampled_from(["json", "yaml"]))}


def strategy(tier):
    s = script_case(tier)
    return st.integers(0, 29).flatmap(lambda x: net_case() if x == 0 else s)


def run(case, ctx):
    return run_script(case, ctx) if case["how"] == "script" else run_net(case, ctx)


def run_script(case, ctx):
    r = ctx.driver({"cmd": "buffer", "inputs": [0], "outputs": [case["brk"]], "size": case["size"], "monitors": case["monitors"],
                    "monitor_us": case["us"], "script": case["script"]})
    n = got = 0
    for op, l in zip(case["script"], r["log"]):
        if op[0] == "send":
            n += 1
        elif op[0] == "sendn":
            n += op[3]
        elif op[0] == "recv":
            got += 1
            if l in ("stuck", "closed"):
                raise Violation("receipt %d of %d: %s" % (got, n, l))
        elif op[0] == "accept_all" and l != [0]:
            raise Violation("%d of %d messages were not accepted, while %d had been received" % (l[0], n, got))
        elif op[0] == "await_size" and not l[0]:
            raise Violation("after %d arrivals and %d receipts the sizes last told are %s, not from %d to %d" % (n, got, l[1], op[1], op[2]))
    if r["stuck"] or not isinstance(r["result"], dict) or "ok" not in r["result"]:
        raise Violation("the buffer ended with %s" % short(r["result"]))
    if r["got"][0] != list(range(n)):
        raise Violation("received %s, sent 0 to %d" % (short(r["got"][0]), n - 1))
    for i, rep in enumerate(r["reported"]):
        last = 0
        for k, v in enumerate(rep):
            if abs(v - last) != 1:
                raise Violation("size %d was told after %d (report %d to %d): %s" % (v, last, k, i, short(rep)))
            if v > n + 1:
                raise Violation("size %d was told, only %d messages in all" % (v, n))
            last = v
        if last != 0:
            raise Violation("the last size told is %d: %s" % (last, short(rep)))
    held = case["most"] > case["size"] + 2
    ctx.note("script", "%d watching" % case["monitors"], "held %s" % ("few" if not held else "< 100" if case["most"] < 100 else "100 and more" if case["most"] < 16384 else "more than 16383"), "capacity %d" % case["size"])
    return held


def run_net(case, ctx):
    body = b"".join(b"%d %s\n" % (i, b"w" * case["width"]) for i in range(case["lines"]))
    if len(body) > 1 << 20:
        body = body[:body.index(b"\n", 1 << 20) + 1]
    src = ctx.write("src", body)
    cfg = {"faucet": {}, "launch": {}, "buffer": {}, "regulator": {}, "drain": {"d": {"destination": ctx.path("out")}}, "connection": {}}
    starts = []
    if case["source"] in ("launch", "both"):
        cfg["launch"]["p"] = {"cmd": ctx.hp, "arg": ["of:%s:1000,7,300:0" % src, "wf:%s" % ctx.path("done")]}
        starts.append("l:p")
    if case["source"] in ("faucet", "both"):
        cfg["faucet"]["p"] = {"source": src}
        starts.append("f:p")
    mids = list(case["mids"])
    mids.insert(min(case["pos"], len(mids)), "b")
    # A program, channel or junction after the last buffer waits with the consumer
    chain = []
    for i, m in enumerate(mids):
        if m == "r":
            cfg["regulator"]["m%d" % i] = {}
        elif m == "l":
            cfg["launch"]["m%d" % i] = {"cmd": ctx.hp, "arg": ["cat:1000:0"]}
        chain.append("%s:m%d" % (m, i))
    if case["reg"] and "r" not in mids[:1]:
        # never holds anything back, but watches
        cfg["regulator"]["q"] = {"buffered": [1 << 29, 1 << 30], "monitored_buffers": ["m%d" % mids.index("b")]}
        chain.insert(0, "r:q")
    cfg["launch"]["c"] = {"cmd": ctx.hp, "arg": ["cl:%d" % case["first"], "wait:" + ctx.path("go"), "cat::0"]}
    if case["fork"]:
        cfg["drain"]["e"] = {"destination": ctx.path("other")}
    for i, s in enumerate(starts):
        if case["fork"]:
            cfg["connection"]["s%d" % i] = s + " | j:fork"
    if case["fork"]:
        cfg["connection"]["k"] = "j:fork | " + " | ".join(chain) + " | l:c | d:d"
        cfg["connection"]["e"] = "j:fork | d:e"
    else:
        cfg["connection"]["k0"] = starts[0] + " | " + " | ".join(chain) + " | l:c | d:d"
        for s in starts[1:]:
            cfg["connection"]["k1"] = s + " | " + chain[0]
    cfg = {k: v for k, v in cfg.items() if v and k != "buffer"}
    ctx.write("pa2.cfg", cg.text_of(cfg, case["fmt"]))
    p = ctx.spawn(["process", "--config", ctx.path("pa2.cfg"), "--format", case["fmt"]])
    total = len(body) * len(starts)

    def taken():
        if case["source"] != "faucet" and not ctx.exists("done"):
            return False
        if case["source"] != "launch" and gate.position(p, src) is not None:
            return False
        return not case["fork"] or gate.size(ctx.path("other")) == total

    def progress():
        return (gate.position(p, src), ctx.exists("done"), gate.size(ctx.path("other")), io(p))

    ok = gate.until(ctx, p, lambda: taken(), progress)
    # A faucet which has not even been opened is not open either
    if ok and case["source"] == "faucet" and not case["fork"]:
        ok = gate.until(ctx, p, lambda: rchar(p) >= total or None, progress)
    ended = p.poll() is not None
    where = progress()
    ctx.write("go", b"")
    r = ctx.wait(p)
    if r.rc != 0:
        raise Violation("status %d, %s" % (r.rc, short(r.err)))
    out = ctx.read("out") or b""
    if len(starts) == 1 and out != body or len(starts) == 2 and sorted(out.split(b"\n")) != sorted((body + body).split(b"\n")):
        raise Violation("the consumer received %s, sent was %s" % (short(out), short(body)))
    if case["fork"] and len(ctx.read("other") or b"") != total:
        raise Violation("the other branch received %d bytes of %d" % (len(ctx.read("other") or b""), total))
    if ok is None:
        raise Inconclusive("slow")
    if ended:
        raise Violation("the run ended before its consumer")
    if not ok:
        raise Violation("the buffer pushed back: all came to rest with %s of %d bytes" % (where, total))
    ctx.note("network", "network, %s" % case["source"])
    return total > 70000


def io(p):
    try:
        with open("/proc/%d/io" % p.pid) as f:
            return f.read()
    except OSError:
        return ""


def rchar(p):
    s = io(p)
    return int(s.split("rchar:")[1].split()[0]) if s else 0
