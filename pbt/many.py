"""Many small networks in one configuration, most of which fail in a known way: all of it has to be reported, and all else has to be done."""
import json, random, re
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg
from .fw import Violation, short

KINDS = {"spawn": "LaunchSpawnError", "open": "OpenIOError", "dest": "OpenIOError", "told": "losed", "fine": None}
LINE = re.compile(r' \* (\w+):(\w+) \| (?:Unknown Destination|(\w+):(\w+)) - "(.*)"', re.S)

unit = st.fixed_dictionaries({"k": st.sampled_from(sorted(KINDS)), "ms": st.sampled_from([0, 0, 5, 30, 100, 200])})


@st.composite
def cases(draw):
    n = draw(st.sampled_from([3, 21, 30, 40, 50, 60, 70]))
    return {"units": draw(st.lists(unit, min_size=n, max_size=n)), "rs": draw(st.integers(0, 1 << 30)), "fmt": draw(st.sampled_from(["json", "yaml"]))}


def seldom(s, one_in):
    w = cases()
    return st.integers(0, one_in - 1).flatmap(lambda x: w if x == one_in // 2 else s)


def run(case, ctx):
    r = random.Random(case["rs"])
    cfg = {"faucet": {}, "launch": {}, "drain": {}, "connection": {}}
    big = ctx.write("big", b"".join(b"%d %s\n" % (i, b"b" * 8000) for i in range(120)))
    small = ctx.write("small", b"one\ntwo\n")
    must, outs = {}, []
    for i, u in enumerate(case["units"]):
        n = "u%x_%d" % (r.getrandbits(24), i)
        k = u["k"]
        if k == "spawn":
            cfg["launch"][n] = {"cmd": ctx.path("no_such_program")}
            cfg["connection"][n] = "l:%s | d:%s" % (n, n)
            must["Launch:" + n] = k
        elif k == "open":
            cfg["faucet"][n] = {"source": ctx.path("missing")}
            cfg["connection"][n] = "f:%s | d:%s" % (n, n)
            must["Faucet:" + n] = k
        elif k == "dest":
            cfg["faucet"][n] = {"source": ""}
            cfg["connection"][n] = "f:%s |C| d:%s" % (n, n)
            must["Drain:" + n] = k
        elif k == "told":
            cfg["launch"][n] = {"cmd": ctx.hp, "arg": ["of:%s:8007:0" % big]}
            cfg["launch"][n + "c"] = {"cmd": ctx.hp, "arg": ["sl:%d" % u["ms"], "x:0"]}
            cfg["connection"][n] = "l:%s |T| l:%sc | d:%s" % (n, n, n)
            must["Launch:" + n] = k
        else:
            cfg["launch"][n] = {"cmd": ctx.hp, "arg": ["sl:%d" % u["ms"], "of:%s::0" % small, "wf:" + ctx.path("done%d" % i)]}
            cfg["connection"][n] = "l:%s | d:%s" % (n, n)
            outs.append(i)
        o = ctx.path("out%d" % i) if k == "fine" else ctx.path("nowhere/x") if k == "dest" else ""
        cfg["drain"][n] = {"destination": o}
    p = ctx.process(cg.text_of({k: v for k, v in cfg.items() if v}, case["fmt"]), fmt=case["fmt"])
    if b"panicked" in p.err:
        raise Violation("panic, %d of %d parts fail: %s" % (len(must), len(case["units"]), short(p.err)))
    if p.rc != (1 if must else 0):
        raise Violation("status %d, %d of %d parts fail: %s" % (p.rc, len(must), len(case["units"]), short(p.err)))
    if p.out:
        raise Violation("stdout: %s" % short(p.out))
    for i in outs:
        if ctx.read("out%d" % i) != b"one\ntwo\n" or not ctx.exists("done%d" % i):
            raise Violation("part %d, which does not fail: received %s, program at its end: %s" % (i, short(ctx.read("out%d" % i)), ctx.exists("done%d" % i)))
    seen = Counter()
    lines = [l for l in p.err.decode("utf8", "replace").split("\n") if l.startswith(" * ")]
    for l in lines:
        m = LINE.fullmatch(l)
        names = [x for x in ("%s:%s" % m.group(1, 2), "%s:%s" % m.group(3, 4)) if x in must] if m else []
        if not names or KINDS[must[names[0]]] not in m.group(5):
            raise Violation("a report of something which did not fail: %s" % l)
        seen[names[0]] += 1
    if not must and p.err:
        raise Violation("stderr: %s" % short(p.err))
    for n, k in must.items():
        if seen[n] != 1:
            raise Violation("%d reports of %s (%s) among %d" % (seen[n], n, k, len(lines)))
    ctx.note("many parts", "%s failures" % ("none" if not must else "up to 20" if len(must) <= 20 else "more than 20"))
    return bool(must)
