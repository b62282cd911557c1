"""A chain of components delivers every byte, in order, once."""
import os, subprocess
from hypothesis import strategies as st
from . import confgen as cg, data, gen
from .fw import Violation, short

ID = "C02"
WORKERS = 16
EXAMPLES = {"quick": 3600, "thorough": 60000}
RULE = ("a case is a chain source, up to 6 components in between, drain, with the contents of the source and the pieces and pauses with "
        "which programs read and write; non-trivial: at least one component in between and at least one byte")
ASSUMPTIONS = ["a program in the chain copies its input (in pieces of any size, with pauses, or all at the end)"]

sizes = st.sampled_from(["", "", "1", "3,7", "254", "255", "256", "100,1,1000", "4096", "65536,1"])
us = st.sampled_from([0, 0, 0, 50, 500, 3000])

part = st.one_of(
    st.fixed_dictionaries({"t": st.just("launch"), "op": st.sampled_from(["cat", "cat", "cate", "tac"]), "sizes": sizes, "us": us, "late": st.sampled_from([0] * 9 + [150])}),
    st.just({"t": "junction"}), st.just({"t": "buffer"}),
    st.fixed_dictionaries({"t": st.just("regulator"), "marks": st.one_of(st.none(), st.tuples(st.integers(0, 12), st.integers(0, 30)).map(list)), "watch": st.integers(0, 2)}))


@st.composite
def cases(draw, tier):
    mids = draw(st.lists(part, min_size=draw(st.sampled_from([0, 1, 1, 2, 3])), max_size=6 if tier == "quick" else 12))
    spec = data.seldom(data.huge, data.spec(big=True), 16)
    if draw(st.integers(0, 59)) == 33:
        mids = draw(st.lists(part, min_size=10, max_size=30))
        spec = data.spec(big=False)
    source = draw(st.sampled_from(["file", "file", "stdin", "pipe", "out", "err"]))
    # Nothing comes for some seconds, when all wait as long as they ever do
    idle = draw(st.sampled_from([1500, 4000, 6000] if tier == "quick" else [2000, 6000, 15000])) if source in ("out", "err") and draw(gen.rare(12)) else 0
    return {"data": draw(spec), "source": source, "idle": idle,
            "sizes": draw(sizes), "us": draw(us), "mids": mids, "drain": draw(st.sampled_from(["file", "file", "-", "_"])),
            "brk": draw(st.lists(st.sampled_from("TFC"), min_size=13, max_size=13)), "fmt": draw(st.sampled_from(["json", "yaml"])),
            "one": draw(st.booleans())}


def strategy(tier):
    return cases(tier)


def calm(n, sizes, us):
    """The pieces and pauses for n bytes, so that it takes a second at most."""
    if n > 3000 and sizes in ("1", "3,7"):
        sizes = "254"
    if n > 60000 and sizes in ("254", "255", "256", "100,1,1000"):
        sizes = "1000,3"
    if n > 250000:
        us, sizes = 0, "65536,1" if sizes in ("", "65536,1") else "4096"
    piece = {"": 60000, "1": 1, "3,7": 5, "254": 254, "255": 255, "256": 256, "100,1,1000": 300, "4096": 4096, "65536,1": 30000, "1000,3": 500}[sizes]
    steps = n // piece + 1
    while us and steps * (us + 60) > 400000:
        us //= 4
    return sizes, us


def run(case, ctx):
    b = data.make(case["data"])
    cfg = {}
    f = ctx.write("data", b)
    sz, us = calm(len(b), case["sizes"], case["us"])
    items = []

    def item(t, n, port="out"):
        i = len(items)
        items.append({"type": t, "name": n, "prio": None if i == 0 else 0, "brk": None if i == 0 else gen.BRK[case["brk"][i % 13]], "port": port})

    src = case["source"]
    stdin = b""
    feeder = None
    if src in ("out", "err"):
        op = "of" if src == "out" else "ef"
        a = ["%s:%s:%s:%d" % (op, f, sz, us)]
        if case.get("idle"):
            h = case["data"].get("seed", 3) * 37 % (len(b) + 1)
            a = ["%s:%s:%s:%d" % (op, ctx.write("data1", b[:h]), sz, us), "sl:%d" % case["idle"], "%s:%s:%s:%d" % (op, ctx.write("data2", b[h:]), sz, us)]
        cfg["launch"] = {"src": {"cmd": ctx.hp, "arg": a}}
        item("launch", "src", src)
    else:
        cfg["faucet"] = {"src": {"source": f if src == "file" else "-"}}
        item("faucet", "src")
        if src == "stdin":
            stdin = b
    for i, m in enumerate(case["mids"]):
        n = "m%d" % i
        port = "out"
        if m["t"] == "launch":
            s, u = calm(len(b), m["sizes"], m["us"])
            cfg.setdefault("launch", {})[n] = {"cmd": ctx.hp, "arg": ["sl:%d" % m["late"]] * bool(m["late"]) + ["tac" if m["op"] == "tac" else "%s:%s:%d" % (m["op"], s, u)]}
            port = "err" if m["op"] == "cate" else "out"
        elif m["t"] == "regulator":
            # Not those before it, which it would stop from ever getting empty
            bufs = ["m%d" % j for j, x in enumerate(case["mids"]) if x["t"] == "buffer" and j > i]
            cfg.setdefault("regulator", {})[n] = {"buffered": m["marks"], "monitored_buffers": bufs[:m["watch"]]}
        item(m["t"], n, port)
    item("drain", "d", None)
    cfg["drain"] = {"d": {"destination": ctx.path("out") if case["drain"] == "file" else case["drain"]}}
    if case["one"]:
        cfg["connection"] = {"k": gen.as_objects(items)}
    else:
        # one connection for each pair
        cfg["connection"] = {"k%d" % i: gen.as_objects([dict(items[i], prio=None), dict(items[i + 1], port=None)]) for i in range(len(items) - 1)}
        for v in cfg["connection"].values():
            v[0].pop("priority", None), v[0].pop("breakable", None)
    text = cg.text_of(cfg, case["fmt"])
    kw = {}
    if src == "pipe":
        rd, wr = os.pipe()
        e = dict(os.environ)
        feeder = subprocess.Popen([ctx.hp, "of:%s:%s:%d" % (f, sz, us)], stdin=subprocess.DEVNULL, stdout=wr, stderr=subprocess.DEVNULL)
        os.close(wr)
        stdin = rd
        kw["busy"] = lambda: feeder.poll() is None and us > 0
    try:
        r = ctx.process(text, stdin=stdin, fmt=case["fmt"], **kw)
    finally:
        if feeder:
            os.close(stdin)
            feeder.kill()
            feeder.wait()
    if r.rc != 0:
        raise Violation("status %d, stderr %s" % (r.rc, short(r.err)))
    got = {"file": ctx.read("out"), "-": r.out, "_": r.err}
    for k, v in got.items():
        if k == case["drain"]:
            if v != b:
                raise Violation("received %s, expected %s (%s)" % (describe(v, b), short(b), "same" if v == b else "differs"))
        elif v:
            raise Violation("%s: %s" % (k, short(v)))
    if case.get("idle"):
        ctx.note("idle for seconds")
    ctx.note("source " + src, "drain " + case["drain"], *["through " + m["t"] for m in case["mids"]])
    ctx.note("data %s" % ("none" if not b else "< 1 K" if len(b) < 1000 else "< 64 K" if len(b) < 65536 else "64 K and more"))
    return bool(b and case["mids"])


def describe(v, b):
    if v is None:
        return "nothing, there is no file"
    i = next((i for i, (x, y) in enumerate(zip(v, b)) if x != y), min(len(v), len(b)))
    return "%d of %d bytes, different from byte %d: %s" % (len(v), len(b), i, short(v[max(0, i - 20):i + 60]))
