"""Networks in which all is well, run with hardly any file descriptors: what pa2 cannot do then it has to report."""
import re
from hypothesis import strategies as st
from . import confgen as cg, nets
from .fw import Violation, short

HEAD = b"Error(s) have occurred:"
LINE = re.compile(r"(Faucet|Launch|Junction|Buffer|Regulator|Drain):(\S+) \| ")


@st.composite
def cases(draw):
    c = draw(nets.net(max_nodes=8, drains=("file",), data=nets.data_spec(big=False)))
    # pa2 itself needs about six
    c["fds"] = draw(st.one_of(st.integers(10, 22), st.integers(10, 22), st.integers(10, 60)))
    return c


def seldom(s, one_in):
    w = cases()
    return st.integers(0, one_in - 1).flatmap(lambda x: w if x == one_in // 2 else s)


def run(case, ctx):
    cfg, stdin = nets.config(case, ctx)
    try:
        r = ctx.process(cg.text_of(cfg, case["fmt"]), stdin=stdin, fmt=case["fmt"], nofile=case["fds"])
    except Violation as e:
        m = re.search(r"panicked at (\S+)", str(e))
        if m and "/registry/" in m.group(1) and "TooManyOpenFiles" in str(e):
            # Not even a library can begin: it is a matter of chance who gets the last ones
            ctx.note("far too few file descriptors")
            return False
        raise
    if r.left:
        raise Violation("with %d file descriptors: pa2 ended, but a program it started did not" % case["fds"])
    if r.rc == 0:
        # then it must have been enough
        nets.check_run(case, ctx, r)
        ctx.note("few file descriptors, enough")
        return False
    if r.rc != 1 or HEAD not in r.err or r.out:
        raise Violation("with %d file descriptors: status %d, stdout %s, stderr %s" % (case["fds"], r.rc, short(r.out), short(r.err)))
    lines = r.err.decode("utf8", "replace").split(HEAD.decode())[1].strip().split("\n")
    names = {(n["t"].capitalize(), n["name"]) for n in case["nodes"]}
    for l in lines:
        m = LINE.search(l)
        if not m or (m.group(1), m.group(2)) not in names and m.group(1) not in ("Junction", "Drain"):
            raise Violation("with %d file descriptors: reported is %r" % (case["fds"], l))
    src, want = nets.own(case), nets.model(case)
    for i, n in enumerate(case["nodes"]):
        if n["t"] == "drain":
            b = ctx.read("out%d" % i)
            if b:
                nets.check_part(b, want[i], src, "with %d file descriptors: drain %s" % (case["fds"], n["name"]))
    ctx.note("too few file descriptors")
    return True
