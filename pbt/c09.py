"""Without a buffer, a consumer which stops reading stops whatever feeds it."""
import os
from hypothesis import strategies as st
from . import confgen as cg, gate
from .fw import Inconclusive, Violation, short

ID = "C09"
WORKERS = 16
EXAMPLES = {"quick": 520, "thorough": 16000}
RULE = ("a case is a network of programs, junctions and regulators without a buffer, in which a consumer stops reading after some messages; "
        "what each source got rid of is compared with the bound; then the consumer goes on and all has to arrive; non-trivial: a source "
        "was stopped with more than half of its data left")
ASSUMPTIONS = ["per component at most 24 messages wait (twice what its channel holds and is on its way), per pipe 64 KiB; a file is read at most 64 KiB ahead"]


@st.composite
def cases(draw, tier):
    # message width: many small ones fit in a pipe, so there is more data then
    n, width = [(2000, 400), (1000, 1000), (500, 2500), (200, 8000)][draw(st.integers(0, 3))]
    deliver = draw(st.integers(0, 2)) == 0
    if not deliver:
        n *= 5
    return {"deliver": deliver, "sources": draw(st.lists(st.sampled_from(["faucet", "out", "err", "stdin"]), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])), unique_by=lambda x: x if x == "stdin" else object())),
            "n": n, "width": width, "end": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "mids": draw(st.lists(st.sampled_from(["l", "l", "j", "r", "e"]), max_size=4)),
            "prios": draw(st.lists(st.sampled_from([0, 0, 1, -3]), min_size=3, max_size=3)),
            "fork": draw(st.sampled_from(["", "", "drain", "launch"])), "forkat": draw(st.integers(0, 4)), "forks": draw(st.sampled_from([1, 1, 2, 3])),
            "first": draw(st.sampled_from([0, 1, 1, 9, 40])), "brk": draw(st.lists(st.sampled_from("TFC"), min_size=8, max_size=8)),
            "how": draw(st.sampled_from(["cat", "tac"])), "rs": draw(st.integers(0, 5)), "fmt": draw(st.sampled_from(["json", "yaml"]))}


def strategy(tier):
    return cases(tier)


def run(case, ctx):
    n, width = case["n"], case["width"]
    end = case["end"].encode()
    bodies = [b"".join(b"%d.%d %s%s" % (k, i, bytes([97 + k]) * width, end) for i in range(n)) for k in range(len(case["sources"]))]
    most = max(len(l) for l in bodies[0][-3 * width:].split(b"\n")) + 12
    cfg = {"faucet": {}, "launch": {}, "regulator": {}, "drain": {"d": {"destination": ctx.path("out")}}, "connection": {}}
    chain = []
    for i, m in enumerate(case["mids"]):
        nm = "m%d" % i
        if m in "le":
            cfg["launch"][nm] = {"cmd": ctx.hp, "arg": [("cat" if m == "l" else "cate") + ":%d:0" % (width // 3)]}
        elif m == "r":
            cfg["regulator"][nm] = {}
        chain.append(("l" if m == "e" else m) + ":" + nm + ("[E]" if m == "e" else ""))
    cfg["launch"]["c"] = {"cmd": ctx.hp, "arg": ["cl:%d" % case["first"], "wait:" + ctx.path("go"), case["how"] + ("::0" if case["how"] == "cat" else "")]}
    chain += ["l:c", "d:d"]
    at = min(case["forkat"], len(chain) - 2)
    brk = case["brk"]
    conns = []
    stdin = b""
    heads = []
    for k, s in enumerate(case["sources"]):
        nm = "s%d" % k
        f = ctx.write(nm, bodies[k])
        if s == "faucet":
            cfg["faucet"][nm] = {"source": f}
            heads.append("f:" + nm)
        elif s == "stdin":
            cfg["faucet"][nm] = {"source": "-"}
            heads.append("f:" + nm)
            stdin = bodies[k]
        else:
            cfg["launch"][nm] = {"cmd": ctx.hp, "arg": ["pf:" + ctx.path("p%d" % k), "%sf:%s:%d:0" % (s[0], f, width + 7)]}
            heads.append("l:" + nm + ("[E]" if s == "err" else ""))
    extra = ""
    if case["fork"] and at < len(chain) - 1:
        # another branch, which is not stopped by itself
        cfg["drain"]["e"] = {"destination": ctx.path("other")}
        t = chain[at]
        extra = t + " |%s| " % brk[6]
        if case["fork"] == "launch":
            cfg["launch"]["x"] = {"cmd": ctx.hp, "arg": ["cat::0"]}
            extra += "l:x | "
        extra += "d:e"
        if t == "l:c":
            extra = ""
    others = []
    if extra:
        for i in range(1, case.get("forks", 1)):
            cfg["drain"]["e%d" % i] = {"destination": ctx.path("other%d" % i)}
            others.append(t + " |%s| d:e%d" % (brk[6], i))
    body = chain[0] + "".join(" |%s| %s" % (brk[i % 6], c) for i, c in enumerate(chain[1:]))
    prio = any(case["prios"][:len(heads)]) and chain[0].startswith("j:")
    for k, h in enumerate(heads):
        conns.append(h + " | " + ("[%d]" % case["prios"][k] if prio else "") + (body if k == 0 else chain[0].split("[")[0]))
    if extra:
        conns.append(extra)
        conns += others
    if case["rs"] & 1:
        conns.reverse()
    cfg["connection"] = {"k%d" % i: c for i, c in enumerate(conns)}
    ctx.write("pa2.cfg", cg.text_of({k: v for k, v in cfg.items() if v}, case["fmt"]))
    nodes = len(chain) + len(heads) + len(others)
    junctions = 4
    pipes = sum(2 for c in cfg["launch"])
    # what the consumer took, what waits in components, pipes, and what a file is read ahead
    bound = case["first"] * most + (nodes + junctions) * 12 * most + pipes * (1 << 16) + (1 << 16) + 20000
    p = ctx.spawn(["process", "--config", ctx.path("pa2.cfg"), "--format", case["fmt"]], stdin=stdin)
    kinds = case["sources"]

    def got():
        o = []
        for k, s in enumerate(kinds):
            if s in ("out", "err"):
                o.append(gate.counter(ctx.path("p%d" % k)))
            elif s == "faucet":
                v = gate.position(p, ctx.path("s%d" % k))
                o.append(v)
            else:
                v = stdin_position(p)
                o.append(v)
        return o

    seen = [0] * len(kinds)
    quiet = [0, None]

    def check():
        g = got()
        for k, v in enumerate(g):
            if v is not None:
                seen[k] = max(seen[k], v)
        for k, v in enumerate(seen):
            if v > bound:
                return True
        x = (g, gate.size(ctx.path("out")), gate.size(ctx.path("other")), cpu(p))
        if x == quiet[1] and any(seen):
            quiet[0] += 1
        else:
            quiet[:] = [0, x]
        return quiet[0] >= 10

    ok = gate.until(ctx, p, check, lambda: quiet[1], quiet=20.0, limit=60.0)
    ended = p.poll() is not None
    seen_at = list(seen)
    closed = [k for k, v in enumerate(got()) if v is None and seen_at[k] > 0]
    if case["deliver"]:
        deliver(case, ctx, p, bodies, ["other"] + ["other%d" % (i + 1) for i in range(len(others))] if extra else [])
    else:
        ctx.kill(p)
    total = len(bodies[0])
    if ended:
        raise Violation("the run ended before its consumer")
    for k, v in enumerate(seen_at):
        if v > bound and bound < total:
            raise Violation("while the consumer waited source %d (%s) got rid of %d bytes of %d, more than the bound of %d for this network" % (k, kinds[k], v, total, bound))
    if not ok:
        raise Inconclusive("did not come to rest")
    ctx.note("bound %s" % ("below half" if bound < total // 2 else "above half"), "stopped" if max(seen_at) < total else "not stopped",
             "%d sources" % len(kinds), *("source " + s for s in kinds))
    ctx.note("got rid of %.1f of the bound" % (max(seen_at) / bound))
    if case["deliver"]:
        ctx.note("went on to the end")
    if extra:
        ctx.note("%d other branches" % (1 + len(others)))
    return max(seen_at) < total // 2


def deliver(case, ctx, p, bodies, others):
    ctx.write("go", b"")
    r = ctx.wait(p)
    if r.rc != 0:
        raise Violation("status %d, %s" % (r.rc, short(r.err)))
    want = sorted(l for b in bodies for l in b.split(b"\n")[:-1])
    for nm in ["out"] + others:
        o = ctx.read(nm) or b""
        ls = o.split(b"\n")
        if len(bodies) == 1 and o != bodies[0] or ls[-1] != b"" or sorted(ls[:-1]) != want:
            raise Violation("%s: received %d bytes, %d lines, of %d lines: %s" % (nm, len(o), len(ls) - 1, len(want), short(o)))
        last = {}
        for l in ls[:-1]:
            k, i = l[:l.index(b" ")].split(b".")
            if last.get(k, -1) + 1 != int(i):
                raise Violation("%s: message %s of source %s after %d" % (nm, i, k, last.get(k, -1)))
            last[k] = int(i)


def stdin_position(p):
    try:
        with open("/proc/%d/fdinfo/0" % p.pid) as g:
            return int(g.read().split()[1])
    except OSError:
        return None


def cpu(p):
    try:
        with open("/proc/%d/stat" % p.pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return s[11], s[12]
    except OSError:
        return None
