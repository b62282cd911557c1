"""stdout, stderr and exit status of programs go to their own ports."""
import random
from hypothesis import strategies as st
from . import confgen as cg
from .fw import Violation, short

ID = "C06"
WORKERS = 16
EXAMPLES = {"quick": 8000, "thorough": 150000}
RULE = ("a case is one to three programs with generated writes to stdout and stderr, closing of either, pauses, exit status or signal, and "
        "for each port whether and to what it is connected; non-trivial: a port is connected and another port (connected or not) is used")
ASSUMPTIONS = ["a program which was started in the background and keeps stdout open belongs to the program"]

SIG = [1, 2, 3, 6, 9, 11, 13, 14, 15, 10, 12]

step = st.one_of(
    st.tuples(st.sampled_from("oe"), st.integers(0, 5), st.integers(0, 99)),
    st.tuples(st.sampled_from("oe"), st.sampled_from([1, 20, 254, 255, 256, 511, 1000, 4096]), st.integers(0, 99)),
    st.tuples(st.sampled_from("OE"), st.sampled_from([3000, 65536, 70000, 200000]), st.integers(0, 9)),
    st.tuples(st.just("s"), st.sampled_from([1, 3, 20]), st.just(0)),
    st.tuples(st.sampled_from(["co", "ce", "ci"]), st.just(0), st.just(0)))


@st.composite
def program(draw):
    steps = draw(st.lists(step, max_size=6))
    return {"steps": [list(s) for s in steps], "end": draw(st.one_of(st.sampled_from([0, 0, 1, 2, 3, 7, 10, 99, 100, 101, 127, 128, 130, 254, 255]), st.integers(0, 255), st.sampled_from(SIG).map(lambda s: "k%d" % s))),
            "in": draw(st.sampled_from(["none", "none", "none", "empty", "read", "read"])),
            "ports": {p: draw(st.sampled_from(["", "", "drain", "drain", "both", "twice", "launch"])) for p in ("out", "err", "exit")},
            "late": draw(st.integers(0, 9)) == 0, "mark": draw(st.integers(0, 3)) == 0}


def strategy(tier):
    return st.fixed_dictionaries({"programs": st.lists(program(), min_size=1, max_size=3), "fmt": st.sampled_from(["json", "yaml"]), "brk": st.sampled_from("TFC"), "full": st.booleans()})


def text(n, seed):
    r = random.Random("%d %d" % (n, seed))
    k = seed % 4
    if n > 600:
        # Not many messages, a junction takes about a millisecond for each
        b = bytearray(r.randbytes(n).replace(b"\n", b"n"))
        for _ in range(r.choice([0, 1, 60])):
            b[r.randrange(n)] = 10
        return bytes(b)
    if k == 0:
        return bytes(r.choice(b"ab\n") for _ in range(n))
    if k == 1:
        return r.randbytes(n)
    if k == 2:
        return b"t" * (n - 1) + b"\n" if n else b""
    return b"\r\n" * (n // 2) + b"z" * (n % 2)


PORT = {"out": "[O]", "err": "[E]", "exit": "[X]"}


def run(case, ctx):
    cfg = {"faucet": {}, "launch": {}, "drain": {}, "connection": {}}
    expect = {}
    marks = []
    nontrivial = False
    for i, p in enumerate(case["programs"]):
        w = {"out": b"", "err": b""}
        args, closed = [], set()
        if p["in"] == "read":
            args.append("rec:" + ctx.path("in%d" % i))
        for k, (op, n, seed) in enumerate(p["steps"]):
            if op == "s":
                args.append("sl:%d" % n)
            elif op in ("co", "ce", "ci"):
                if op not in closed:
                    args.append(op)
                closed.add(op)
            else:
                port = {"o": "out", "e": "err"}[op.lower()]
                if "c" + port[0] in closed:
                    continue
                b = text(n, seed)
                if op in "OE":
                    args.append("%sf:%s:%s:0" % (op.lower(), ctx.write("d%d_%d" % (i, k), b), ["", "1000", "4096,1"][seed % 3]))
                else:
                    args.append("%s:%s" % (op, b.hex()))
                w[port] += b
        end = p["end"]
        ports = dict(p["ports"])
        late = p["late"] and not closed and isinstance(end, int)
        mark = None
        if p["mark"] and not late:
            if "co" not in closed:
                args.append("co")
            if "ce" not in closed:
                args.append("ce")
            mark = ctx.path("mark%d" % i)
            args += ["sl:15", "wf:" + mark]
            ports["exit"] = "see"
        args.append("k:" + end[1:] if isinstance(end, str) else "x:%d" % end)
        if late:
            # something it started goes on writing after it has ended
            sh = ctx.write("late%d" % i, "(sleep 0.03; echo late; echo elate >&2) &\nexec \"$0\" \"$@\"\n")
            cfg["launch"]["p%d" % i] = {"cmd": "/bin/sh", "arg": ["-c", open(sh).read(), ctx.hp] + args}
            ctx.note("background")
        else:
            cfg["launch"]["p%d" % i] = {"cmd": ctx.hp, "arg": args}
        w["exit"] = b"_" if isinstance(end, str) else b"%d" % end
        conn = []
        if p["in"] != "none":
            f = ctx.write("src%d" % i, text(3000, i) if p["in"] == "read" else b"")
            cfg["faucet"]["f%d" % i] = {"source": f}
            conn.append("f:f%d | l:p%d" % (i, i))
            if p["in"] == "read":
                expect["in%d" % i] = (text(3000, i), False)
        both = [q for q in ("out", "err", "exit") if ports[q] == "both"]
        for q in ("out", "err", "exit"):
            how = ports[q]
            nm = "o%d%s" % (i, q)
            src = "l:p%d%s" % (i, PORT[q] if q != "out" or case["full"] else "")
            pipe = " |%s| " % case["brk"]
            if how in ("drain", "twice") or how == "both" and len(both) == 1:
                cfg["drain"][nm] = {"destination": ctx.path(nm)}
                conn.append(src + pipe + "d:" + nm)
                expect[nm] = (w[q], late and q != "exit")
                if how == "twice":
                    cfg["drain"][nm + "b"] = {"destination": ctx.path(nm + "b")}
                    conn.append(src + pipe + "d:" + nm + "b")
                    expect[nm + "b"] = expect[nm]
            elif how == "launch":
                cfg["launch"][nm] = {"cmd": ctx.hp, "arg": ["rec:" + ctx.path(nm)]}
                conn.append(src + pipe + "l:" + nm)
                expect[nm] = (w[q], late and q != "exit")
            elif how == "see":
                cfg["launch"][nm] = {"cmd": ctx.hp, "arg": ["rn:1", "see:%s:%s" % (mark, ctx.path("seen%d" % i)), "rec:" + ctx.path(nm)]}
                conn.append(src + pipe + "l:" + nm)
                expect[nm] = (w[q][1:], False)
                marks.append("seen%d" % i)
        if len(both) > 1:
            nm = "o%dboth" % i
            cfg["drain"][nm] = {"destination": ctx.path(nm)}
            for q in both:
                conn.append("l:p%d%s | d:%s" % (i, PORT[q], nm))
            expect[nm] = ([w[q] for q in both], late)
        if not conn:
            cfg["faucet"]["f%d" % i] = {"source": ""}
            conn.append("f:f%d | l:p%d" % (i, i))
        used = [q for q in ("out", "err", "exit") if ports[q]]
        if used and (len(used) > 1 or w["out"] and w["err"] or "exit" in used):
            nontrivial = True
        ctx.note("ports connected: %s" % (" ".join(used) or "none"), "killed" if isinstance(end, str) else "status", "exit checked" if mark else "")
        for q in ("out", "err"):
            if not ports[q] and len(w[q]) > 65536:
                ctx.note("more than a pipe to a port not connected")
        for k, c in enumerate(conn):
            cfg["connection"]["k%d_%d" % (i, k)] = c
    ctx.case_labels.discard("")
    r = ctx.process(cg.text_of({k: v for k, v in cfg.items() if v}, case["fmt"]), fmt=case["fmt"])
    if r.rc != 0 or r.out or r.err:
        raise Violation("status %d, stdout %s, stderr %s" % (r.rc, short(r.out), short(r.err)))
    for nm, (want, late) in sorted(expect.items()):
        b = ctx.read(nm)
        if b is None:
            raise Violation("%s: no file" % nm)
        if isinstance(want, list):
            got = sorted(lines(b))
            # an unterminated last message joins with whatever comes next
            if not late and len(b) != sum(map(len, want)) or late and len(b) < sum(map(len, want)):
                raise Violation("%s: received %s, of %s" % (nm, short(b), short(want)))
            if sorted(b) != sorted(b"".join(want)) and not late:
                raise Violation("%s: received %s, of %s" % (nm, short(b), short(want)))
            continue
        if late:
            t = b"elate\n" if nm.rstrip("b").endswith("err") else b"late\n"
            want_, n = want, b.count(t)
            if b.replace(t, b"", 1) != want and not any(b[:k] + b[k + len(t):] == want for k in [j for j in range(len(b)) if b.startswith(t, j)]):
                raise Violation("%s: received %s, expected %s and %s somewhere" % (nm, short(b), short(want), short(t)))
        elif b != want:
            raise Violation("%s: received %s, expected %s" % (nm, short(b), short(want)))
    for m in marks:
        if ctx.read(m) != b"1":
            raise Violation("the exit message came before the program had ended (%s: %s)" % (m, ctx.read(m)))
    return nontrivial


def lines(b):
    return b.split(b"\n")
