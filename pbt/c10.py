"""Regulators: they hold back between their watermarks, lose nothing and never stall."""
import json
from hypothesis import strategies as st
from . import confgen as cg, data
from .fw import Violation, short

ID = "C10"
DRIVER = True
WORKERS = 16
EXAMPLES = {"quick": 3600, "thorough": 160000}
RULE = ("a case is a history of pausing, resuming and messages at a regulator, or a network in which unregulated bursts fill the buffers "
        "which regulators watch while consumers are slow (judged by the traffic an observer is told), a network in which consumers empty "
        "the buffers to the low watermark and then wait for what the regulator has to let pass, or one whose buffers are brought to rest at about the watermarks; non-trivial: a regulator had to hold "
        "something back, and had to let it pass later")
ASSUMPTIONS = ["the size of a buffer which a regulator knows differs by at most 32 from the number of messages told to have gone in minus those told to have come out",
               "at rest the size a regulator knows differs by at most one per buffer, at the latest after as long as those who look may sleep", "while it holds back a regulator passes at most 3 messages", "no regulator watches a buffer before it"]
SLACK = 32


# ---------------------------------------------------------------------------------------------- one regulator

@st.composite
def script_case(draw):
    script, n, got, paused, held = [], 0, 0, False, False
    for _ in range(draw(st.integers(2, 9))):
        op = draw(st.integers(0, 9))
        if op < 4:
            k = draw(st.sampled_from([1, 1, 2, 5, 12, 40]))
            script += [["send", 0, n + i] for i in range(k)]
            n += k
            held = held or paused and k > 4
        elif op < 6:
            script.append(["pause"])
            paused = True
        elif op < 8:
            script.append(["resume"])
            paused = False
        elif not paused and n > got:
            k = draw(st.integers(0, n - got))
            script += [["recv"]] * k
            got += k
        if draw(st.booleans()):
            script.append(["settle", draw(st.sampled_from([1, 3]))])
        script.append(["qlen"])
    if draw(st.booleans()):
        script.append(["close", 0])
    script.append(["resume"])
    return {"how": "script", "size": draw(st.sampled_from([1000, 1000, 1000, 3])), "brk": draw(st.sampled_from("TFC")), "script": script, "held": held}


def run_script(case, ctx):
    r = ctx.driver({"cmd": "regulator", "inputs": [0], "outputs": [case["brk"]], "size": case["size"], "control": True, "script": case["script"]})
    n = got = 0
    paused = None
    for op, l in zip(case["script"], r["log"]):
        if op[0] == "send":
            n += 1
        elif op[0] == "recv":
            got += 1
            if l in ("stuck", "closed"):
                raise Violation("receipt %d of %d, not paused: %s" % (got, n, l))
        elif op[0] == "pause":
            # whatever waits at this time may pass before it looks
            if paused is None:
                paused = n
        elif op[0] == "resume":
            paused = None
        elif op[0] == "qlen" and paused is not None and got + l > paused + 3:
            raise Violation("%d messages passed, %d had been sent when it was paused" % (got + l, paused))
    if r["stuck"] or not isinstance(r["result"], dict) or "ok" not in r["result"]:
        raise Violation("the regulator ended with %s" % short(r["result"]))
    if r["got"][0] != list(range(n)):
        raise Violation("received %s, sent 0 to %d" % (short(r["got"][0]), n - 1))
    ctx.note("one regulator", "capacity %d" % case["size"])
    return case["held"]


# ---------------------------------------------------------------------------------------------- bursts

@st.composite
def burst_case(draw):
    k = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 8]))
    regs = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        watch = sorted(draw(st.sets(st.integers(0, k - 1), min_size=1, max_size=k)))
        d = SLACK * len(watch)
        lo = draw(st.sampled_from([0, 0, 1, 5, 20, 50]))
        hi = lo + draw(st.sampled_from([0, 1, 10, d + 40, d + 60, d + 90]))
        regs.append({"watch": watch, "lo": lo, "hi": hi})
    # what comes in bursts
    reg = draw(st.sampled_from(regs))
    width = draw(st.sampled_from([2000, 4000]))
    share = [draw(st.integers(0, 3)) if i in reg["watch"] else 0 for i in range(k)]
    if not sum(share):
        share[reg["watch"][0]] = 1
    # more than consumers, pipes and channels take
    absorb = 65536 // width + 12
    total = reg["hi"] + SLACK * len(reg["watch"]) + draw(st.sampled_from([0, 10, 30]))
    burst = [(total * s + sum(share) - 1) // sum(share) + absorb if s else draw(st.sampled_from([0, 0, 50])) for i, s in enumerate(share)]
    return {"how": "burst", "k": k, "regs": regs, "burst": burst, "bursts": draw(st.sampled_from([1, 1, 2])), "n": draw(st.integers(60, 160)), "width": width,
            "us": [draw(st.sampled_from([50, 200])) for _ in range(k)], "sleep": draw(st.sampled_from([60, 120, 200])),
            "src": draw(st.sampled_from(["faucet", "launch"])), "between": draw(st.sampled_from(["", "", "b:free", "j:jj", "l:cp"])),
            "fan": draw(st.booleans())}


def lines(tag, n, width):
    return b"".join(b"%s.%d %s\n" % (tag, i, b"r" * width) for i in range(n))


def burst_config(case, ctx):
    k = case["k"]
    cfg = {"faucet": {}, "launch": {}, "regulator": {}, "drain": {}, "connection": {}}
    w = case["width"]
    fed = ["b:b%d" % i for i in range(k)] if case["fan"] or k == 1 else ["b:b%d" % (k - 1)]
    chain = "%s:a" % case["src"][0]
    f = ctx.write("a", lines(b"a", case["n"], w))
    if case["src"] == "faucet":
        cfg["faucet"]["a"] = {"source": f}
    else:
        cfg["launch"]["a"] = {"cmd": ctx.hp, "arg": ["of:%s:%d:100" % (f, w)]}
    for i, r in enumerate(case["regs"]):
        chain += " | r:r%d" % i
        cfg["regulator"]["r%d" % i] = {"buffered": [r["lo"], r["hi"]], "monitored_buffers": ["b%d" % x for x in r["watch"]]}
    if case["between"]:
        chain += " | " + case["between"]
        if case["between"] == "l:cp":
            cfg["launch"]["cp"] = {"cmd": ctx.hp, "arg": ["cat::0"]}
    last = chain[chain.rindex("|") + 2:]
    cfg["connection"]["a0"] = chain + " | " + fed[0]
    for i, x in enumerate(fed[1:]):
        cfg["connection"]["a%d" % (i + 1)] = last + " | " + x
    for i in range(k):
        if case["burst"][i]:
            f = ctx.write("x%d" % i, lines(b"x%d" % i, case["burst"][i], w))
            arg = ["of:%s:%d:0" % (f, 3 * w)]
            if case["bursts"] == 2:
                f2 = ctx.write("y%d" % i, lines(b"y%d" % i, case["burst"][i], w))
                arg += ["sl:60", "of:%s:%d:0" % (f2, 3 * w)]
            cfg["launch"]["x%d" % i] = {"cmd": ctx.hp, "arg": arg}
            cfg["connection"]["x%d" % i] = "l:x%d | b:b%d" % (i, i)
        fed_any = case["burst"][i] or "b:b%d" % i in fed
        if fed_any:
            cfg["launch"]["c%d" % i] = {"cmd": ctx.hp, "arg": ["sl:%d" % case["sleep"], "cat:%d:%d" % (w, case["us"][i])]}
            cfg["drain"]["d%d" % i] = {"destination": ctx.path("out%d" % i)}
            cfg["connection"]["c%d" % i] = "b:b%d | l:c%d | d:d%d" % (i, i, i)
    have = {c.split(" | ")[-1] for c in cfg["connection"].values()}
    for r in cfg["regulator"].values():
        r["monitored_buffers"] = [b for b in r["monitored_buffers"] if "b:" + b in have]
    return {a: b for a, b in cfg.items() if b}, fed


def run_burst(case, ctx):
    cfg, fed = burst_config(case, ctx)
    r = ctx.driver({"cmd": "net", "config": json.dumps(cfg), "spy": 0, "slow_us": 0, "head": 4})
    if "ok" not in r:
        raise Violation("the run failed: %s" % short(json.dumps({k: v for k, v in r.items() if k != "spy"})))
    for i in range(case["k"]):
        want = {}
        if "b:b%d" % i in fed:
            want[b"a"] = case["n"]
        if case["burst"][i]:
            want[b"x%d" % i] = case["burst"][i]
            if case["bursts"] == 2:
                want[b"y%d" % i] = case["burst"][i]
        if want:
            check_lines(ctx.read("out%d" % i) or b"", want, case["width"], "drain d%d" % i)
    nontrivial = False
    for i, reg in enumerate(case["regs"]):
        watch = set(cfg["regulator"]["r%d" % i]["monitored_buffers"])
        if not watch:
            continue
        d = SLACK * len(watch)
        t, held, passed, after, top = 0, False, 0, 0, 0
        for m in r["spy"]:
            if m["msg"] == "finished":
                continue
            (st_, sn), (dt, dn) = m["src"], m["dst"]
            if dt.lower() == "buffer" and dn in watch:
                t += 1
            if st_.lower() == "buffer" and sn in watch:
                t -= 1
            top = max(top, t)
            if t >= reg["hi"] + d and not held:
                held, passed = True, 0
            elif t <= reg["lo"] + d:
                held = False
            if st_.lower() == "regulator" and sn == "r%d" % i:
                if held:
                    passed += 1
                    if passed > 3:
                        raise Violation("regulator r%d (low %d, high %d) passed %d messages after its %d buffers had held %d or more, now %d" % (
                            i, reg["lo"], reg["hi"], passed, len(watch), reg["hi"] + d, t))
                elif passed or top >= reg["hi"] + d:
                    after += 1
        if top >= reg["hi"] + d:
            ctx.note("had to hold back", "buffers watched %d" % len(watch))
            if after:
                ctx.note("passed on again")
                nontrivial = True
    ctx.note("bursts")
    return nontrivial


def check_lines(b, want, width, what):
    seen = {}
    ls = b.split(b"\n")
    if ls[-1]:
        raise Violation("%s: ends with %s" % (what, short(ls[-1])))
    for l in ls[:-1]:
        h, _, rest = l.partition(b" ")
        tag, _, i = h.partition(b".")
        if tag not in want or rest != b"r" * width or not i.isdigit() or int(i) != seen.get(tag, 0):
            raise Violation("%s: %s after %d of %r" % (what, short(l), seen.get(tag, 0), tag))
        seen[tag] = seen.get(tag, 0) + 1
    if seen != {k: v for k, v in want.items() if v}:
        raise Violation("%s: received %s of %s" % (what, seen, want))


# ---------------------------------------------------------------------------------------------- rendezvous

@st.composite
def meet_case(draw):
    k = draw(st.sampled_from([1, 1, 2]))
    return {"how": "meet", "k": k, "lo": draw(st.sampled_from([0, 0, 1, 10, SLACK * k + 1, SLACK * k + 20, SLACK * k + 60])), "m": draw(st.integers(25, 60)), "more": draw(st.sampled_from([0, 0, 30])),
            "rest": draw(st.sampled_from([0, 5, 80])), "share": draw(st.integers(1, 3)), "watched": draw(st.booleans()), "regs": draw(st.sampled_from([1, 1, 2])),
            "fmt": draw(st.sampled_from(["json", "yaml"]))}


def run_meet(case, ctx):
    W = 8000
    k = case["k"]
    d = SLACK * k
    content = max(0, case["lo"] - d)
    hi = content + d + 40 + case["m"] + case["more"]
    total = hi + 50 * k + 18 * k
    nb = [total] if k == 1 else [total * case["share"] // 4, total - total * case["share"] // 4]
    keep = [content] if k == 1 else [min(content // 2, nb[0]), content - min(content // 2, nb[0])]
    cfg = {"launch": {}, "regulator": {}, "drain": {}, "connection": {}}
    f0 = [ctx.path("f0_%d" % i) for i in range(k)]
    f2 = ctx.path("f2")
    part1, part2 = ctx.write("a1", lines(b"a", case["m"], W)), ctx.write("a2", b"".join(b"a.%d %s\n" % (case["m"] + i, b"r" * W) for i in range(case["rest"])))
    cfg["launch"]["a"] = {"cmd": ctx.hp, "arg": ["wait:" + f for f in f0] + ["of:%s::0" % part1, "wf:" + f2, "of:%s::0" % part2]}
    regs = ""
    for i in range(case["regs"]):
        cfg["regulator"]["r%d" % i] = {"buffered": [case["lo"], hi] if i == 0 else [0, 1 << 20], "monitored_buffers": ["b%d" % x for x in range(k)]}
        regs += " | r:r%d" % i
    cfg["connection"]["a"] = "l:a%s | b:b0" % regs
    for i in range(k):
        f = ctx.write("x%d" % i, lines(b"x%d" % i, nb[i], W))
        cfg["launch"]["x%d" % i] = {"cmd": ctx.hp, "arg": ["of:%s::0" % f, "wf:" + f0[i]]}
        cfg["connection"]["x%d" % i] = "l:x%d | b:b%d" % (i, i)
        cfg["launch"]["c%d" % i] = {"cmd": ctx.hp, "arg": ["wait:" + f for f in f0] + ["cl:%d" % (nb[i] - keep[i]), "wait:" + f2, "cat::0"]}
        cfg["drain"]["d%d" % i] = {"destination": ctx.path("out%d" % i)}
        cfg["connection"]["c%d" % i] = "b:b%d | l:c%d | d:d%d" % (i, i, i)
    r = ctx.process(cg.text_of(cfg, case["fmt"]), fmt=case["fmt"])
    if r.rc != 0:
        raise Violation("status %d, %s" % (r.rc, short(r.err)))
    for i in range(k):
        want = {b"x%d" % i: nb[i]}
        if i == 0:
            want[b"a"] = case["m"] + case["rest"]
        try:
            check_lines(ctx.read("out%d" % i) or b"", want, W, "drain d%d" % i)
        except Violation as v:
            raise Violation("low %d, high %d, consumers kept %s and waited for %d messages: %s" % (case["lo"], hi, keep, case["m"], v))
    ctx.note("consumers waited", "buffers watched %d" % k)
    return True


# ---------------------------------------------------------------------------------------------- marks

@st.composite
def marks_case(draw):
    """Buffers are filled and emptied to about the watermarks; each time it has come to rest the regulators are tried."""
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    regs = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        lo = draw(st.sampled_from([0, 1, 2, 5, 20]))
        regs.append({"watch": sorted(draw(st.sets(st.integers(0, k - 1), min_size=1, max_size=k))), "lo": lo,
                     "hi": lo + draw(st.sampled_from([0, 1, 2, 4, 15])), "between": draw(st.sampled_from(["", "", "b:free", "j:jj", "r:idle"]))})
    goals = sorted({max(0, x + d) for r in regs for x in (r["lo"], r["hi"]) for d in (-2, -1, 0, 1, 2, 3)} | {0, 40})
    moves = [(draw(st.integers(0, k - 1)), draw(st.sampled_from(goals))) for _ in range(draw(st.integers(1, 4)))]
    r = draw(st.sampled_from(regs))
    if draw(st.booleans()):
        # to just where it must hold back, to just where it must not
        b, w = r["watch"][0], len(r["watch"])
        moves += [(x, 0) for x in r["watch"][1:]] + [(b, max(r["hi"], r["lo"] + 1) + draw(st.sampled_from([1, w, w])))] + [(b, r["lo"])]
    return {"how": "marks", "k": k, "regs": regs, "moves": [list(m) for m in moves]}


def run_marks(case, ctx):
    W, k, at = 8000, case["k"], 12
    cfg = {"launch": {}, "regulator": {}, "drain": {}, "connection": {}}
    tries = len(case["moves"]) + 1
    up = [45 + sum(max(0, g) for x, g in case["moves"] if x == b) for b in range(k)]
    ops, regs = [["try", at]], {}
    for b in range(k):
        cfg["launch"]["x%d" % b] = {"cmd": ctx.hp, "arg": ["gs:%s:x%d:%d:%d" % (ctx.path("x%d_" % b), b, up[b], W)]}
        cfg["launch"]["c%d" % b] = {"cmd": ctx.hp, "arg": ["cs:%s:%d:%d" % (ctx.path("c%d_" % b), up[b], W + 10), "cat::0"]}
        cfg["drain"]["d%d" % b] = {"destination": ctx.path("out%d" % b)}
        cfg["connection"]["x%d" % b] = "l:x%d | b:b%d | l:c%d | d:d%d" % (b, b, b, b)
    for i, r in enumerate(case["regs"]):
        cfg["regulator"]["r%d" % i] = {"buffered": [r["lo"], r["hi"]], "monitored_buffers": ["b%d" % b for b in r["watch"]]}
        cfg["launch"]["a%d" % i] = {"cmd": ctx.hp, "arg": ["gs:%s:a%d:%d:%d" % (ctx.path("a%d_" % i), i, tries * at, W)]}
        cfg["drain"]["e%d" % i] = {"destination": ctx.path("aout%d" % i)}
        cfg["connection"]["a%d" % i] = "l:a%d | r:r%d | %sd:e%d" % (i, i, (r["between"] + str(i) + " | ") if r["between"] else "", i)
        regs["r%d" % i] = {"watch": ["b%d" % b for b in r["watch"]], "lo": r["lo"], "hi": r["hi"], "prefix": ctx.path("a%d_" % i), "n": tries * at}
    for b, g in case["moves"]:
        ops += [["move", "b%d" % b, g, ctx.path("x%d_" % b), up[b], ctx.path("c%d_" % b), up[b]], ["try", at]]
    for b in range(k):
        ops += [["all", ctx.path("x%d_" % b), up[b]], ["all", ctx.path("c%d_" % b), up[b]]]
    ops += [["all", ctx.path("a%d_" % i), tries * at] for i in range(len(regs))]
    r = ctx.driver({"cmd": "net", "config": json.dumps(cfg), "spy": 0, "head": 4, "steer": {"ops": ops, "regs": regs}})
    if "ok" not in r:
        raise Violation("the run failed: %s" % short(json.dumps({k: v for k, v in r.items() if k != "spy"})))
    states, moved = {}, {}
    for l in r["steered"]:
        for n, x in l["regs"].items():
            if l["after"][0] == "move":
                moved[n] = x["holds"]
                states.setdefault(n, []).append(x["state"])
                continue
            about = "regulator %s (low %d, high %d) with %d in its %d buffers" % (n, regs[n]["lo"], regs[n]["hi"], moved.get(n, 0), len(regs[n]["watch"]))
            if x["state"] == "open" and x["passed"] < x["sent"]:
                raise Violation("%s passed %d of %d messages, then no more for 20 s" % (about, x["passed"], x["sent"]))
            if x["state"] == "held" and x["while_held"] > 3:
                raise Violation("%s passed %d messages" % (about, x["while_held"]))
    for b in range(k):
        check_lines(ctx.read("out%d" % b) or b"", {b"x%d" % b: up[b]}, W, "drain d%d" % b)
    for i in range(len(regs)):
        check_lines(ctx.read("aout%d" % i) or b"", {b"a%d" % i: tries * at}, W, "drain e%d" % i)
    ctx.note("to the watermarks", "buffers watched %d" % max(len(x["watch"]) for x in regs.values()))
    return any("held" in s and "open" in s[s.index("held"):] for s in states.values())


def strategy(tier):
    s, b, m, e = script_case(), burst_case(), meet_case(), marks_case()
    return st.integers(0, 39).flatmap(lambda x: m if x == 0 else e if x == 6 else b if x < 6 else s)


def run(case, ctx):
    return {"script": run_script, "burst": run_burst, "meet": run_meet, "marks": run_marks}[case["how"]](case, ctx)
