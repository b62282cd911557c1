"""Faucets and drains use the place they name, and nothing else."""
import os
from hypothesis import strategies as st
from . import confgen as cg, data, gen
from .fw import Violation, short

ID = "C17"
WORKERS = 12
EXAMPLES = {"quick": 5000, "thorough": 120000}
RULE = ("a case is 1 to 5 lines from a faucet or a generating program to a drain, with sources and destinations of every kind, contents and "
        "previous contents; non-trivial: something is written somewhere, or a file with previous content is replaced")
ASSUMPTIONS = ["no two drains write to the same file, at most one writes to stdout and one to stderr, at most one faucet reads stdin"]

FILES = ["out%d", "./out%d", "sub/out%d", "sub/../out%d", "sub/d%d", " out%d", "out %d", "--out%d", "-%d", "_%d", "\u00e9%d", "\u4e2d\u6587%d", "o'%d", "o\"%d", "$HOME%d", "*%d", "out%d|x", "a:%d",
         "~%d", "NULL%d", "%d", "\\%d", "&%d", "out%d\n", "sub//x%d", "-o%d", "_o%d", "dev/null%d", "dev%d", "~%d/x", "stdout%d", "//out%d"]
# Not quite the names with a meaning; each at most once
EXACT = ["- ", " -", "_ ", " _", " ", "--", "__", "-_", "./-", "./_", "-\n", "_\n", "\t", "stdout", "stderr", "stdin", "null", "NULL", "~", "*", "%", "dev/null", "\u2013", "\"-\"", "'_'", "0", "1", "2", "&1", "-0"]
NAMES = st.one_of(st.sampled_from(FILES), st.sampled_from(FILES), st.sampled_from(EXACT))
SMALL = data.spec()


def line():
    return st.fixed_dictionaries({
        "src": st.sampled_from(["file", "file", "file", "file", "stdin", "empty", "null", "gen", "gen", "dis"]),
        "data": data.spec(big=True), "sname": NAMES, "abs": st.booleans(),
        "mid": st.sampled_from(["", "", "", "launch", "noisy", "buffer", "junction"]),
        "dst": st.sampled_from(["file", "file", "file", "file", "stdout", "stdout", "stderr", "empty", "null"]),
        "dname": NAMES, "dabs": st.booleans(), "omit": st.booleans(),
        "before": st.one_of(st.none(), SMALL, st.integers(1, 9000), st.sampled_from([100, 65536, 70000, 1 << 20, 3 << 20])), "link": st.integers(0, 7).map(lambda x: x == 0),
        "shared": st.integers(0, 5).map(lambda x: x == 0)})


def strategy(tier):
    return st.fixed_dictionaries({"lines": cg.many(lambda n: st.lists(line(), min_size=1, max_size=n), 5), "stdin": SMALL, "fmt": st.sampled_from(["json", "yaml"]),
                                  "outpre": st.sampled_from([b"", b"", b"before\n"])})


def place(ctx, name, i, absolute, side, used):
    """The path as configured and as it is."""
    if name in EXACT:
        real = os.path.normpath(os.path.join(ctx.dir, name))
        if real not in used:
            used.add(real)
            os.makedirs(os.path.dirname(real), exist_ok=True)
            return name, real
        name = "out%d"
    n = (side + "_" + name % i) if name[0] not in "./-_ ~$%*\\&'\"" and not name.startswith(("sub", "dev")) else name % i
    if side == "s":
        # sources and destinations never meet
        n = "src/" + n.lstrip("/") if not n.startswith("./") else "./src/" + n[2:]
    n = n.lstrip("/") if not absolute else n
    real = os.path.join(ctx.dir, n.lstrip("/"))
    if os.path.normpath(real) in used:
        return place(ctx, "./out%d", i, absolute, side, used)
    used.add(os.path.normpath(real))
    os.makedirs(os.path.dirname(real), exist_ok=True)
    p = os.path.join(ctx.dir, n.lstrip("/")) if absolute else n
    if absolute and name.startswith("//"):
        p = "/" + p
    return p, real


def run(case, ctx):
    os.makedirs(ctx.path("sub"), exist_ok=True)
    os.makedirs(ctx.path("src/sub"), exist_ok=True)
    cfg = {"connection": {}}
    inb = data.make(case["stdin"])
    want, files, used = {}, {}, set()
    nontrivial = False
    reads = False
    outs = {"stdout": None, "stderr": None}
    prev = None
    for i, l in enumerate(case["lines"]):
        src, dst = l["src"], l["dst"]
        if src == "stdin" and reads:
            src = "file"
        if dst in outs and outs[dst] is not None:
            dst = "file"
        b = b""
        first = {"type": "faucet", "name": "f%d" % i, "prio": None, "brk": None, "port": "out"}
        if src == "file":
            if l["shared"] and prev:
                p, b = prev
            else:
                b = data.make(l["data"])
                p, real = place(ctx, l["sname"], i, l["abs"], "s", used)
                with open(real, "wb") as f:
                    f.write(b)
                prev = (p, b)
            s = p
        elif src == "stdin":
            reads, b, s = True, inb, "-"
        elif src == "empty":
            s = ""
        elif src == "null":
            s = "/dev/null"
        if src in ("gen", "dis"):
            b = data.make(l["data"]) if src == "gen" else b""
            first = {"type": "launch", "name": "g%d" % i, "prio": None, "brk": None, "port": "out"}
            cfg.setdefault("launch", {})["g%d" % i] = {"cmd": ctx.hp, "arg": ["of:%s:255,1000:0" % ctx.write("gen%d" % i, b), "e:%s" % b"noise".hex()] if src == "gen" else ["e:00", "dis"]}
        else:
            cfg.setdefault("faucet", {})["f%d" % i] = {"source": s}
        items = [first]
        if l["mid"]:
            t = {"noisy": "launch"}.get(l["mid"], l["mid"])
            items.append({"type": t, "name": "m%d" % i, "prio": 0, "brk": "terminate", "port": "out"})
            if t == "launch":
                # what is not connected is not shown
                cfg.setdefault("launch", {})["m%d" % i] = {"cmd": ctx.hp, "arg": ["%s::0" % ("cat" if l["mid"] == "launch" else "catb")]}
        items.append({"type": "drain", "name": "d%d" % i, "prio": 0, "brk": "finish", "port": None})
        cfg["connection"]["c%d" % i] = gen.as_objects(items)
        d = {}
        if dst == "stdout":
            outs[dst] = b
            if not l["omit"]:
                d["destination"] = "-"
        elif dst == "stderr":
            outs[dst] = b
            d["destination"] = "_"
        elif dst == "empty":
            d["destination"] = ""
        elif dst == "null":
            d["destination"] = "/dev/null"
        else:
            p, real = place(ctx, l["dname"], i, l["dabs"], "d", used)
            d["destination"] = p
            real = os.path.normpath(real)
            target = real
            if l["link"]:
                target = ctx.path("target%d" % i)
                os.symlink(target, real)
            if l["before"] is not None:
                old = b"#" * l["before"] if isinstance(l["before"], int) else data.make(l["before"])
                with open(target, "wb") as f:
                    f.write(old)
                nontrivial |= bool(old)
            files[target] = b
            if l["link"]:
                files[real] = b
        cfg.setdefault("drain", {})["d%d" % i] = d
        nontrivial |= bool(b) and dst not in ("empty", "null")
        ctx.note("from " + src, "to " + dst + (" with previous content" if dst == "file" and l["before"] is not None else ""))
    ctx.write("zz.stdin", inb)
    fd = os.open(ctx.path("zz.stdin"), os.O_RDONLY)
    ctx.write("zz.stdout", case["outpre"])
    so = os.open(ctx.path("zz.stdout"), os.O_WRONLY | os.O_APPEND)
    before = listing(ctx.dir)
    try:
        r = ctx.process(cg.text_of(cfg, case["fmt"]), stdin=fd, fmt=case["fmt"], stdout=so)
        pos = os.lseek(fd, 0, os.SEEK_CUR)
    finally:
        os.close(fd)
        os.close(so)
    if r.rc != 0:
        raise Violation("status %d, stderr %s" % (r.rc, short(r.err)))
    out = ctx.read("zz.stdout")
    if out != case["outpre"] + (outs["stdout"] or b""):
        raise Violation("stdout is %s, expected %s after %s" % (short(out), short(outs["stdout"]), short(case["outpre"])))
    if r.err != (outs["stderr"] or b""):
        raise Violation("stderr is %s, expected %s" % (short(r.err), short(outs["stderr"])))
    for p, b in files.items():
        try:
            with open(p, "rb") as f:
                got = f.read()
        except OSError as e:
            raise Violation("destination %r: %s" % (p, e))
        if got != b:
            raise Violation("destination %r holds %s, expected %s" % (p, short(got), short(b)))
    if not reads and pos != 0:
        raise Violation("%d bytes of stdin were read without a faucet for it" % pos)
    after = listing(ctx.dir)
    # nothing else is written
    known = set(os.path.relpath(p, ctx.dir) for p in files) | {"pa2.cfg", "zz.stdout"}
    for f, v in after.items():
        n = os.path.normpath(f)
        if n not in known and not n.startswith((".err", ".out", ".in")) and before.get(f) != v:
            raise Violation("%r changed from %s to %s" % (f, before.get(f), v))
    for f in before:
        if f not in after:
            raise Violation("%r is gone" % f)
    return nontrivial


def listing(base):
    r = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            s = os.lstat(p)
            r[os.path.relpath(p, base)] = (s.st_size, s.st_mode, s.st_mtime_ns)
    return r
